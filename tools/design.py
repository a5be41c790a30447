#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from the text below, the properties and the evidence of the last run.

Run it after all checks have run once:  python3 /verif/tools/design.py
"""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

HEAD = open(V + '/tools/design_head.md').read()

# What is analysed, from where, and how far.
HOW = {
 'C01': ('Add, Delete, Modify and ModifyDN of the database backend with symbolic handler settings, identity and request', 'the equality literal "identity == normalised administrator DN" and "administrator DN != empty" must hold at each write'),
 'C02': ('the connection loop of the server, with every packet shape and an arbitrary set of registered backends', 'a ghost variable for the identity of the last successful bind'),
 'C03': ('the password change of the database backend, including the callback it passes to the storage layer', 'owner or administrator facts at the point where the entry is put'),
 'C04': ('the connection loop, run to a fixpoint over requests', 'a ghost variable that is set only where a backend accepted a bind'),
 'C05': ('Bind of all three backends and the connection loop', 'the only accepted reasons for success are written as facts (verification call returned true for that entry and password; anonymous case)'),
 'C06': ('the password verification function, with the stored value and the password symbolic', 'per scheme a term for the expected comparison; slices and prefixes of the stored value are tracked by position'),
 'C07': ('Search of all three backends', 'identity non-empty, or the configuration switch and the loopback test of the remote address'),
 'C08': ('the loader of LDIF data on a bounded parsed input, the search of the bind-only layer, and a flow analysis from the password store to search results', 'the case-insensitive test against userPassword must be refuted on the path'),
 'C09': ('the extended request handler and the password change of the database backend', 'terms: hash(password sent) or hash(generated); element by element content of the response value'),
 'C10': ('all functions of the repository (flow) and the request handlers (typestate)', 'sources are passwords, hashes, attribute values and structures with them; sinks are log calls, standard error, errors of commands and panics'),
 'C11': ('all five update operations of the database backend, every storage call allowed to fail', 'transaction typestate: none, open(read/write), committed, rolled back'),
 'C12': ('as C11; every option of the database that relaxes syncing', 'transaction typestate at the success return'),
 'C13': ('as C11, on the abstract content of the three buckets', 'the algebra of the three tables: each name record, child record and entry record added or removed is balanced at commit'),
 'C14': ('add and rename of the database backend', 'a read of the same key in the same transaction that found nothing'),
 'C15': ('add, delete and rename of the database backend', 'facts on the parent record and the child record at the write'),
 'C16': ('all operations of the database backend', 'each key must be a term made by the normaliser from a name of the request or entry'),
 'C17': ('the function that applies a modify request, on entries of up to two attributes and requests of up to two changes with up to two values', 'a reference application of the changes, evaluated on the same facts'),
 'C18': ('the search of the server front end and of the LDIF backend', 'the entry being sent must carry the facts "filter holds" and "in scope"; counters against the size limit'),
 'C19': ('filter evaluation and scope tests on filter trees of each kind with nested arbitrary parts', 'reference evaluation in three-valued logic, compared on the facts of each path'),
 'C20': ('Search of the LDIF backend on 56 filter shapes and scopes, and the load of an entry into each kind of index followed by a lookup', 'propositional coverage: the disjunction of the lookups must be implied by the filter'),
 'C21': ('load, open, Reload, Search and the signal handling of the server command', 'publication typestate of the data of one load'),
 'C22': ('load, open and the tree builder on folders of two files', 'every failing step is recorded and must be followed by an error result'),
 'C23': ('Bind, Search and everything they start or call in the LDIF backend, and the encoders of the front end', 'effect analysis: an address that derives from loaded data is never the target of a store'),
 'C24': ('the connection loop with all request types', 'a request/response automaton over reads and writes of the connection'),
 'C25': ('the goroutine of a connection; the call graph below request handling', 'deferred recovery as typestate, panics injected at each decoder and backend call; reachability of process exits'),
 'C26': ('the goroutine of a connection, panics injected', 'counts of close, callbacks and gauge changes at the end of each path'),
 'C27': ('the connection loop, the accept loop, the statistics functions and the metric collector', 'lock-set tracking; a counter is compared with its value at the time the lock was taken'),
 'C28': ('Search and the sending goroutine of the LDIF backend', 'channel typestate: made, sender started, in table, closed'),
 'C29': ('each template function and the constructor of the LDIF backend', 'the path opened must carry the facts of the containment test; the limit is followed through the reader'),
 'C30': ('the serve command, the listeners of the server and the accept loop', 'the listener given to the accept loop must be the TLS one with the loaded key pair'),
 'C31': ('the serve command from its flags to the backend constructors and listeners', 'one symbolic value per flag; each setting must be that very term'),
 'C32': ('the password and user generation commands', 'strength literal at each hash call'),
 'C33': ('all commands, with each library step allowed to fail, on inputs of up to two records', 'a ghost flag "a step failed" at each normal end'),
 'C34': ('all functions with a transaction, bucket or cursor in hand', 'value escape analysis from bucket reads to places that outlive the transaction'),
 'C35': ('the five update operations of the LDIF backends; the export command; all calls of the LDIF package', 'result codes, open options and a list of calls that change files'),
 'C36': ('the password generators, the paging code and all imports', 'each character a draw over exactly the character set; length and error facts'),
 'C37': ('the normaliser, on names of up to two components with up to two types and up to three characters per text', 'per-character value sets: on each path the set of characters that may pass unescaped must exclude all special ones'),
 'C38': ('the decoders and the connection loop on packets of each shape (children missing, surplus, wrong type)', 'each request field must be the decoded value of a fixed element of the packet'),
 'C39': ('the connection loop and all operations of all backends', 'the code in the response must be the term returned by the backend call'),
 'C40': ('every call that opens the database or changes modes', 'constant propagation of the mode'),
 'C45': ('the front end search and the search of the database backend on trees of two levels', 'the set of entries sent is compared with the set offered'),
 'C46': ('add, rename and password change from the request to the stored bytes (encoder kept symbolic)', 'a reference application of the request'),
}

props = [json.loads(l) for l in open(V + '/properties.jsonl')]
man = json.load(open(V + '/MANIFEST.json'))
na = {n['property']: n['reason'] for n in man['not_applicable']}
out = [HEAD.rstrip(), '', '## Properties, one by one', '',
       'Each entry names what is analysed, what decides, the rules with the number of',
       'instances decided on the unchanged tree, the bounds or assumptions, and the cost.', '']
for p in props:
    i = p['id']
    out += ['### %s %s' % (i, p['title']), '']
    if i in na:
        out += ['Not applicable. ' + na[i], '']
        continue
    e = json.load(open('%s/evidence/%s.json' % (V, i)))
    c = e['coverage']
    what, oracle = HOW[i]
    out += ['- Analysed: ' + what + '.', '- Decided by: ' + oracle + '.']
    for r in c['rules']:
        out.append('- Rule `%s` (%d instances): %s.' % (r['rule'], r['instances_decided'], r['meaning']))
    for a in e['assumptions']:
        out.append('- Assumed: ' + a.rstrip('.') + '.')
    w = e['wall_s']
    out.append('- Cost: %s after loading; %d functions entered, about %s path classes.' % (
        'under a second' if w < 1 else 'about %d s' % round(w), c['functions_analysed'], format(round(c['path_classes'], -1), ',') if c['path_classes'] > 50 else c['path_classes']))
    out.append('- Beyond tests: ' + p['why_tests_cant'])
    out.append('')
out += ['## Planted bugs and what catches them', '',
        'Each lies in `seeded/`, builds, passes the stable tests and has a demonstration',
        'that fails with it. "First" tells whether the check of the property, as it was when',
        'the bug was written, caught it.', '', '| Bug | Check | First | What it breaks |', '|---|---|---|---|']
FIRST = json.load(open(V + '/tools/seeds_first.json'))
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d))
    n = d.split('/')[-2]
    out.append('| %s | %s | %s | %s |' % (n, m['property'], FIRST.get(n, 'caught'), m['what_it_breaks'].replace('|', '/')))
out += ['', open(V + '/tools/design_tail.md').read().rstrip(), '']
open(V + '/DESIGN.md', 'w').write('\n'.join(out))
