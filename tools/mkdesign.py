"""Writes DESIGN.md: the text below, the rule and assumptions of each check, and tables of findings and planted bugs"""
import importlib, json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vlib import env  # noqa

HEAD = '''# Design

Everything here is property-based testing: generated schemas, values, messages, texts, packages and call histories, judged by an explicit oracle, with
failures shrunk to a replay file.  No check looks at source text; all of them call the public functions of the package as found in `/repo` (or, for
development, in the copy named by `VERIF_REPO`).  This file is written by `tools/mkdesign.py`.

## Machinery

* `check.sh Cnn --tier quick|thorough` runs one property (`run.py`, `vlib/runner.py`).  Eight worker processes with different seeds (derived from `VERIF_SEED`)
  let Hypothesis draw byte strings; `vlib/src.py` turns bytes into choices so that zero bytes mean the simplest choice and shrinking the bytes
  shrinks the case.  A case is a plain Python literal (schema, type, values, operations); the oracle takes only the case.  A failure is shrunk by Hypothesis and
  a further byte-level pass, saved under `replays/`, and can be run again without Hypothesis: `check.sh Cnn --replay FILE`.
* Exit 0: nothing found; 1: `VIOLATION` lines; 2: the check itself could not run or explored nothing non-trivial.  An exception other than the documented
  rejections, or no result for 60 s, is a violation as well.
* `regress/Cnn/*.json`: shrunk cases of defects found earlier, replayed first by every run.  `known_findings.jsonl`: see below.
* `vlib/gen.py`: schemas.  All base types, formats, sizes, ranges, patterns, enumerations (listed, derived, pointer), tagged and untagged choices, external tags,
  key/link/dir options, inline options, multiplicity, recursion, references to other packages, configuration, information headers, short definitions, odd
  names and text.  Some have a group of types with keys, keys that are links and links to them, or of enumerations, pointers, map keys and tags derived from one type (8% each).  Now and then (8%) a schema gets far more fields, items, types (up to 120, in chains of references too) or description than usual.
  Every schema it makes is meant to be accepted (checked by C07).
* `vlib/model.py`: the reference model: an independent implementation of what a schema means, from the JADN specification and the package documentation - which API values
  and messages are valid, what is written, what is read - working on the schema as written (it does not use `unfold_extensions`).  It answers OK(value), BAD(reason) or
  UNSPEC where the documents leave the outcome open; UNSPEC is never judged.  It also generates valid values.
* `vlib/fmt.py`: independent implementations of the semantic formats (RFC texts).  `vlib/near.py`: moves a value onto or just across one declared constraint of its
  type, and writes invalid values as messages without checking.  `vlib/notation.py`: reference rendering of type strings, fields and multiplicity.
* The workload of a tier is a number of cases, not a time, so results depend only on the seed.  Quick checks take 4-18 s each on 8 cores; thorough ones run 10-40 times as many cases (1-8 min).

Why this reaches what the tests cannot: the tests use a handful of hand-written schemas and one to three values each.  Every property below quantifies over all schemas
and values; the searches draw some thousands of schemas per run, each with values at the edges of its own constraints, and compare against an independent statement of the intended result.

## Interpretation of "accepted schema"

A generated schema is used by C08-C26 only if `jadn.check` accepts it (rejections are counted under the label "not accepted"; C07 separately demands that well-formed schemas are accepted,
so these filters cannot hide a checker that became too strict).

## Properties
'''
HOW = {
 'C01': 'Round trip. The model generates a valid value; encode, JSON text, decode must give it back, in the four modes. Values of untagged unions are compared only if no other alternative claims the message.',
 'C02': 'Differential against the reference model: same verdict and same message for valid, near-valid and mutated values.',
 'C03': 'Differential against the reference model on messages, plus the invariant that what decode returns is itself valid (the model and the codec can encode it).',
 'C04': 'Robustness: hostile JSON and Python values in sequences; only ValueError/TypeError may escape; after each call a valid message must be handled as by a fresh codec.',
 'C05': 'Stateful: histories of encode/decode/set_mode/failures over two codecs sharing a schema; each result compared with a fresh codec made from a private copy; arguments and schema compared before/after; results are scribbled over.',
 'C06': 'Reference implementations of each format, in nine positions in which a format can occur; texts from the grammar of the format, damaged zero to three times.',
 'C07': 'Accept: generated well-formed schemas are returned unchanged. Reject: one of several dozen kinds of faults injected at a random site.',
 'C08': 'Round trip through text and file in both layouts; an independent JSON reader; a second writing must give the same text.',
 'C09': 'Round trip through JIDL text and file with any column widths, compared after the normalisation the property names; text is a fixed point.',
 'C10': 'Round trip through HTML; the page is also read with an independent HTML parser: its tags must be those of a page for a schema without text, so no text becomes markup.',
 'C11': 'Round trips and reference renderings for type strings, fields, multiplicities, option lists and sorting.',
 'C12': 'Invariants of the result for any set of extensions (nothing left, types kept in order, references resolve, no duplicates), idempotence, argument unchanged.',
 'C13': 'The unfolded schema is given to the codec (and to the model, as a core schema) and compared with the model reading the original text; partial unfolding and stepwise unfolding are compared too.',
 'C14': 'Reference implementation of stripping; nothing mutable shared with the argument.',
 'C15': 'Independent traversal of references; order relation over generated graphs (cycles, dangling nodes, duplicates); independence of order of definition.',
 'C16': 'Metamorphic: permuted options and explicit defaults have the same canonical form; reference canonical order; codec differential on the canonical schema.',
 'C17': 'Invariants of the output checked with the jsonschema package (meta-schema, references, names, top level) and an independent strict JSON reader.',
 'C18': 'Differential: the codec\'s messages must be valid under the generated JSON Schema; messages the model rejects for a reason JSON Schema can express must not be.',
 'C19': 'The document is parsed with an independent CommonMark/GFM parser; every row must equal a reference rendering.',
 'C20': 'The source is parsed into a graph (DOT grammar with an XML parser for labels; PlantUML lines) and compared with the reference graph of the schema; GraphViz reads a sample where installed.',
 'C21': 'A generated schema is split into packages; the resolved schema must be the original up to a renaming found by matching; exported types encode and reject the same values; files listed in two orders.',
 'C22': 'Each alternative is asked separately in a schema of its own; the union must accept exactly by the count, in every mode and position.',
 'C23': 'The same work in several processes with different hash seeds, time zones, locales, directories; byte comparison.',
 'C24': 'Sequences of tools with random options over any accepted schema; no exception, no change to the argument, same result later.',
 'C25': 'Limits: sizes around each default, configured and explicit maximum. Names: names around each rule, configured rules included; reference implementation of the rules.',
 'C26': 'Metamorphic: reordering definitions, adding unrelated ones, renaming.',
 'C27': 'Round trip and reference implementation over nested JSON data.',
 'C28': 'Differential over histories: the operations run in one forked child, and each alone in a child of its own; outcomes (exceptions included) must agree.',
 'C31': 'Each generated schema is encoded and decoded as a message of the bundled meta-schema in every mode; mutated documents are judged by the codec, the reference model of the meta-schema, the checker and two JSON Schemas.',
 'C32': 'Histories: a generated schema is written and read through a random chain of formats, layouts and files and must remain the same; tools must agree on a schema and its variant read from another format; make-artifacts.py is run on generated directories.',
 'C30': 'Items counted directly from a generated graph of structures and directories; compared with simplified schemas, with the codec on every item and on names near them, and with the JSON Schema.',
 'C29': 'Edited documents and type strings: rejected, or what was read is written again and compared with the edited text line by line (cell by cell) as tokens, by an independent tokenizer; layout changes that mean nothing must load to the same schema.',
}
TAIL = '''
## Left outside, and why

* `convert/jas_w.py` and `convert/proto.py` are unfinished in this version (they fail with an assertion or a KeyError on most schemas); no property is stated about them.
* Documented style options without any effect in this version (diagram `enums`, Markdown `pad` and `links`) are not judged.
* A link to a type without a primary key, and an enumeration derived from a type without fields or items, are schema errors the checker does not look for; tools may reject them.
* `markdown_loads` reads a JIDL-like notation, not the tables `markdown_dumps` writes; no guarantee about reading Markdown is documented, and none is judged.
* The `cycles` entry of `analyze` is always empty in this version.
* Names of more than 64 characters that arise from generated names are truncated by design. Names with "$" are reserved for generated types; authors' types are given such names only in C24.
* Control characters cannot be held by XML/HTML; PlantUML's own markup inside items and patterns is not considered.
* `jadn.check` fills omitted trailing columns of definitions in the schema given to it and returns that schema; this is its documented result and not counted as a side effect.
* Threads: the package keeps no shared mutable state between codecs and documents no thread safety; histories are single-threaded.

## Findings

All defects found so far were repaired by "fix:" commits (see `known_findings.jsonl`, entries "fixed"); there is no open known finding. A fixed entry suppresses nothing. Repairs:

'''


def main():
    out = [HEAD]
    for line in open(os.path.join(V, 'properties.jsonl')):
        p = json.loads(line)
        i = p['id']
        m = importlib.import_module('checks.' + i.lower())
        q = ', '.join(f'{x.name} {x.quick * 8}/{x.thorough * 8}' for x in m.PROPS)
        out.append(f"### {i} {p['title']}\n\n{p['statement']}\n\n*Approach.* {HOW[i]}\n\n*Cases and rule.* {m.RULE}\n\n*Cases per run (quick/thorough).* {q}\n\n*Assumptions.* " + '; '.join(m.ASSUMPTIONS) + '.\n')
    out.append(TAIL)
    for line in open(os.path.join(V, 'known_findings.jsonl')):
        d = json.loads(line)
        out.append('* ' + d['what'])
    out.append('''
## Planted bugs

Each is a change to lines of the original repository that keeps the stable tests passing, with a demonstration (`seeded/<id>/`).  Only the quick check of the bug's
own property, the one that has to report it, was run for this table (by vcheck or `tools/plant.py`); "caught by" names it when it did (`tools/caught.json`).

| id | property | needs | breaks | caught by |
|----|----------|-------|--------|-----------|''')
    ct = os.path.join(V, 'tools', 'caught.json')
    caught = json.load(open(ct)) if os.path.exists(ct) else {}
    esc = lambda x: x.replace('|', '\\|')
    for s in sorted(os.listdir(os.path.join(V, 'seeded'))):
        d = json.load(open(os.path.join(V, 'seeded', s, 'meta.json')))
        out.append(f"| {s} | {d['property']} | {esc(d['needs'])} | {esc(d['what_it_breaks'])} | {', '.join(caught.get(s, []))} |")
    h = os.path.join(V, 'tools', 'history.md')
    if os.path.exists(h):
        out.append('\n' + open(h).read())
    open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')


main()
