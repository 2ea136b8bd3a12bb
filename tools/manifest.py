"""Regenerates MANIFEST.json: python3 tools/manifest.py (from /verif)."""
import json

REF = 'runtime monitoring: every result of the real code, under generated and hostile workloads, against an independent reference model'
T = {
    'C01': (REF + ' (Kuznechik from the standard, as integers)', 'round-trip and per-position bit sweeps; keys and blocks sampled, not exhausted'),
    'C02': (REF + ' (Magma from the standard, as integers)', 'round-trip and per-position bit sweeps; keys and blocks sampled, not exhausted'),
    'C03': (REF + ' (GOST R 34.13-2015 ECB/CBC with both paddings)', 'all lengths to several blocks, IVs of 1..n blocks; one recorded finding (padding 2 of non-multiples)'),
    'C04': (REF + ' (GOST R 34.13-2015 CFB/OFB/CTR)', 'lengths past 256 blocks and counter carries included'),
    'C05': ('runtime monitoring: trace checker comparing chunked histories, and IV/counter after each call, with one-shot runs and the model', 'block-aligned partitions of messages to several hundred blocks'),
    'C06': ('runtime monitoring: history checker, every tag of a random update/digest history against the model MAC', 'all small splits exhaustively, longer ones sampled'),
    'C07': (REF + ' (Streebog, RFC 6986)', 'all lengths to several blocks, carries of length counter and checksum forced'),
    'C08': ('runtime monitoring: history checker, every digest of update/copy/reset/digest histories against the hash of the recorded octets', 'random histories of families of copies'),
    'C09': ('runtime monitoring: history checker against the HMAC model', 'all key lengths 0..64; random histories'),
    'C10': (REF + ' (PBKDF2 over the HMAC model)', 'derived keys past 255 blocks; iteration counts to the default'),
    'C11': ('runtime monitoring: sequence checker against the generator model, counter carries and exhaustion driven by seeds at the edge', 'all seed and output sizes; exhaustion reached for small counters'),
    'C12': (REF + ' (GOST R 34.10-2012 on big integers)', 'all supplied sets; keys, digests and numbers at the edges of 1..q-1'),
    'C13': ('runtime monitoring: verdicts of verify() against the standard equation for forged, altered and adversarially solved triples', 'crafted points at infinity, off-curve keys, added orders, octet flips'),
    'C14': ('runtime monitoring with fault injection: signing with forged random numbers and a scripted entropy source, liveness watchdog', 'unusable numbers constructed so that r or s is zero'),
    'C15': ('runtime monitoring: verdicts of the constructor against the requirements for generated small and full-size curves', 'each requirement violated alone; embedding degrees around the bound'),
    'C16': ('runtime monitoring: parameter sets against the pinned ones, number-theoretic invariants, and end-to-end use', 'complete over the supplied sets'),
    'C17': ('runtime monitoring: encodings decoded by an independent DER reader', 'component and total lengths across every base-128 and length-octet boundary sampled'),
    'C18': ('runtime monitoring: exception monitor over every call site, argument and invalid class', 'all public call sites; wrong lengths around the documented ones'),
    'C19': ('runtime monitoring: noninterference checker over interleaved and threaded histories with injected thread switches', 'random interleavings of 3..9 users'),
    'C20': ('runtime monitoring: buffer-mutation monitor and twin execution with scribbled buffers', 'random histories, seven scribbling styles'),
    'C21': ('runtime monitoring: object-graph scanner for secrets after clear(), twin execution with different secrets', 'all classes with clear(), at random points of use'),
    'C22': ('runtime monitoring: instruction counts (bytecode events by sys.monitoring, machine instructions by callgrind) compared over mismatch positions', 'lengths to 512; count noise of callgrind within a slack'),
    'C23': ('runtime monitoring with fault injection: interposed entropy source, exactly-once accounting of its octets', 'all default sites, scripted rejections'),
    'C24': ('runtime monitoring: twin execution with rejected calls inserted', 'random histories with every invalid class'),
    'C25': ('runtime monitoring: attributes and forms of results after every call against pinned values', 'all classes, algorithms and modes'),
    'C26': ('runtime monitoring: offline checker over recovered keystream blocks (none may repeat)', 'messages to several thousand blocks, carries forced'),
    'C27': ('runtime monitoring with fault injection: twin execution of a survivor while relatives are cleared, destroyed or fail to be created; finalizer-error monitor', 'random histories; interpreter exit in child processes'),
    'C28': ('runtime monitoring: allocation tracer (tracemalloc) over repeated operations, with a deliberate leak as control', 'steady state over windows of operations; every class and mode'),
    'C29': (REF + ' (digit-by-digit conversions)', 'sizes to 300 octets'),
    'C30': ('runtime monitoring: the same recorded histories executed in child interpreters under other start options and calling places, outcomes compared', 'seventeen configurations; call depth to 150'),
    'C31': ('runtime monitoring: work counter (function entries, jumps and branches by sys.monitoring) over doubled inputs and growing histories, with a quadratic control', 'interpreter steps, no clock; work inside single instructions not counted'),
}
NOT = []

if __name__ == '__main__':
    ids = [json.loads(line)['id'] for line in open('properties.jsonl', encoding='utf-8')]
    missing = [i for i in ids if i not in T and i not in [n['property'] for n in NOT]]
    assert not missing, missing
    checks = [dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i,
                   technique=T[i][0], level='exploration', level_note=T[i][1]) for i in ids if i in T]
    with open('MANIFEST.json', 'w', encoding='utf-8') as fh:
        json.dump(dict(version=1, setup_cmd='python3 -m gostmon.selftest', checks=checks, not_applicable=NOT,
                       notes='No hooks in /repo: monitors interpose from outside the package (see DESIGN.md).'), fh, indent=1)
        fh.write('\n')
