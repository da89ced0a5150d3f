"""writes MANIFEST.json and KNOWN_FINDINGS.json (run by hand after a change)"""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(__file__), '..', 'lib'))
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
BASE = ('TLC checks recorded executions of the real library, built from /repo, against the TLA+ specification '
        '(spec/Trace.tla over spec/TaLib.tla): every recorded call must be a step of the specification.')
T = 'TLA+ specification checked with TLC; trace validation of the real code against it'
TR = (' Trusts TLC, the driver (driver/main.c: it records, it does not judge) and java doubles as IEEE arithmetic; '
      'bounded by the series, parameters and histories generated (seeded), results compared to a relative tolerance.')
NOTE = {
 'C01': 'The batch call over the same series is the oracle for every status and value of the stream.',
 'C02': 'A lone stream is the oracle; save points before, inside and after the warm-up, moves, copies, repeated cycles and several states in one file.',
 'C03': 'A lone stream is the oracle for every chunking and mix of chunks and single bars, including warm-up markers and begin/count.',
 'C04': 'Lone streams are the oracle for several streams whose operations are interleaved with each other, batch calls, saves, loads and frees.',
 'C05': 'Every misuse has one answer in the specification; saved states are cut at every byte, writes fail at every byte, and memory is accounted for.',
 'C06': 'Begin, count, lookback and the set of written elements are computed by the specification; two runs with different guard patterns show unwritten elements.',
 'C07': 'Cut, extended and perturbed series have to give the same values on the same bars.',
 'C08': 'The documented ranges and defaults are in spec/Catalog.tla; every bound of every parameter is tried on both sides at every entry point.',
 'C09': 'The holder is part of the state of the specification; direct calls are the oracle of what it computes.',
 'C10': 'The call with separate arrays is the oracle; every (output, input) pair.',
 'C11': 'The double-precision call is the oracle.',
 'C12': 'Lookbacks come from spec/Lookback.tla; values are compared with the call under the former unstable periods.',
 'C13': 'The settings are the state g of the specification; long random histories of set/get/restore/init/shutdown, seen through getters and all lookbacks.',
 'C14': 'Every pattern is defined in TLA+ (spec/Candles.tla) and evaluated on every bar of every series.',
 'C15': 'Every indicator is defined in TLA+ (spec/Indicators.tla) over IEEE numbers and evaluated on every series.',
 'C17': 'MCThreads.tla explores overlapping calls (and shows what shared scratch memory would break); recorded runs of 2-4 threads are read as behaviours of the specification, with a race detector (gcc -fsanitize=thread) that records every conflicting access as an event no action allows.',
 'C18': 'Describe.tla says what every text has to say about every function; the texts, the returned array and the output of the generator built from /repo are read entry by entry as a trace.',
 'C16': 'What is announced is compared with spec/Catalog.tla entry by entry, and with actual calls.',
}
NOT = {}
def main():
    sys.modules.setdefault('check', None)
    import plan
    checks = []
    for l in open(os.path.join(ROOT, 'properties.jsonl')):
        p = json.loads(l)['id']
        if p in plan.PLAN:
            checks.append(dict(property=p, quick_cmd='python3 check.py ' + p, thorough_cmd='VERIF_TIER=thorough python3 check.py ' + p,
                               technique=T, level='model_checking', level_note=BASE + ' ' + NOTE[p] + TR))
        else:
            NOT.setdefault(p, 'no check built yet')
    json.dump(dict(version=1, setup_cmd='python3 check.py --setup', checks=checks,
                   not_applicable=[dict(property=p, reason=r) for p, r in NOT.items()],
                   notes='No hooks: everything is observed through the public interface of the library.'),
              open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
main()
