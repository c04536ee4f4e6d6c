#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run after editing it)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = 'crates/lsp-server/src/'
A = 'crates/analyzer/src/'
I = 'crates/ir/src/'
PROPS = []
def P(id, title, statement, over, quant, why, files, mech, note):
    assert len(title) <= 80, (id, len(title))
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, note=note))

P('P01', 'Answers are computed from the latest text of each open document',
  'For every history of document-open, change and close notifications, the server\'s view of each open rust document is exactly the text and version sent last (of several content changes in one notification, the last one), closed and non-rust documents are unknown to it, and no document is affected by notifications about another. Every hover, completion, inlay-hint and diagnostics answer is the analysis of that text.',
  ['histories', 'inputs'], 'all notification histories over any set of document URIs, texts and versions',
  'The tests sample single notifications on an empty store; the property ranges over arbitrary histories with interleaved documents.',
  [L + 'memory.rs', L + 'dispatch/handlers/notification.rs', L + 'dispatch.rs'],
  [('document store', L + 'memory.rs'), ('notification handlers', L + 'dispatch/handlers/notification.rs')],
  'every operation of the document store and every document notification handler is under a full functional contract (documents and pending changes as maps, frame included); histories against the real main loop are the bounded replay part')
P('P02', 'Every request gets exactly one response; no message ends the session',
  'Whatever a client sends, each request is answered exactly once, under its own id, with exactly one of result and error: MethodNotFound for unsupported methods, InvalidParams when the parameters do not decode, otherwise the answer of the handler for that method. Notifications and client responses are never answered, and only exit, shutdown or a closed connection ends the session.',
  ['histories', 'inputs'], 'all sequences of requests, notifications and responses with arbitrary methods, ids and parameters',
  'The tests send well-formed messages one at a time; nothing quantifies over malformed parameters, unknown methods, or message order.',
  [L + 'dispatch.rs', L + 'dispatch/routers/request.rs', L + 'dispatch/routers/notification.rs'],
  [('request router', L + 'dispatch/routers/request.rs'), ('main loop', L + 'dispatch.rs')],
  'routers, request/notification/response handling, command responses and one arbitrary iteration of the main loop are under contract with a ghost list of sent messages; panic-freedom of the analysis behind handlers is bounded only')
P('P03', 'Published diagnostics are those of the current text, exactly once per change',
  'Each notification that opens, changes or closes a tracked document is followed by exactly one diagnostics publication for that document and none for others: all diagnostics of the text just stored, with that text\'s version and in the negotiated position encoding, or an empty list without version when the document was closed. Nothing is published when nothing changed.',
  ['histories', 'inputs'], 'all notification histories, texts, versions and position encodings',
  'The tests publish for one fixed document; stale snapshots, lost or duplicated publications only show over histories.',
  [L + 'dispatch.rs', L + 'dispatch/actions.rs'],
  [('change processing', L + 'dispatch.rs'), ('diagnostics parameters', L + 'dispatch/actions.rs')],
  'snapshot construction, the change-processing loop (one arbitrary changed id, frame over all other ids), parameter construction for an arbitrary diagnostic, and sending are under contract; the analysis itself is an uninterpreted pure function there')
exec(open(os.path.join(HERE, 'tools', 'props_more.py')).read()) if os.path.exists(os.path.join(HERE, 'tools', 'props_more.py')) else None

NOT_APPLICABLE = globals().get('NOT_APPLICABLE', [])

TECH = ('contract-based deductive verification: contracts on the real functions, obligations generated from the MIR rustc emits for /repo '
        '(generator in /verif/mirvc), discharged by z3; executable form of the same contracts as bounded stand-in and counterexample search')

with open(HERE + '/properties.jsonl', 'w') as f:
    for p in PROPS:
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['quant']),
                                why_tests_cant=p['why'], anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']]))) + '\n')
na = {n['property'] for n in NOT_APPLICABLE}
m = dict(version=1,
         setup_cmd='bash build.sh >build-setup.log 2>&1 || { tail -50 build-setup.log; exit 1; }',
         hooks=dict(guard='cfg(ink_verif)', enable='RUSTC_WRAPPER=/verif/harness/rustc-wrap.sh passes --cfg ink_verif and --emit=mir for the crates of /repo; no hook in /repo uses the guard so far', source_commits=[]),
         checks=[dict(property=p['id'], level='proof', technique=TECH, quick_cmd=f'python3-vt check.py {p["id"]}',
                      thorough_cmd=f'VERIF_TIER=thorough python3-vt check.py {p["id"]}', level_note=p['note']) for p in PROPS if p['id'] not in na],
         not_applicable=NOT_APPLICABLE)
json.dump(m, open(HERE + '/MANIFEST.json', 'w'), indent=1)
print(len(PROPS), 'properties')
