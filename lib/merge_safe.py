# merge_safe.py DIR OUT TIER: one evidence file for the runs of check C32
import json, sys, glob, os
ev = [json.load(open(f)) for f in sorted(glob.glob(sys.argv[1] + '/*.json'))]
if not ev: sys.exit(1)
os.makedirs(os.path.dirname(sys.argv[2]), exist_ok=True)
c = {k: sum(e['coverage'][k] for e in ev) for k in ('states', 'transitions', 'traces_validated_against_impl')}
c['exhaustive'] = all(e['coverage']['exhaustive'] for e in ev)
c['rule'] = ('The operand, directive, string and stream-program enumerations of the other properties and, for every numeric operation, arbitrary '
             'bit patterns (all 128 values of the leading seven bits with extreme and mixed trailing bits), run on a library built with '
             'AddressSanitizer and UndefinedBehaviorSanitizer; any report ends the run and is a violation. Runs: ') + ', '.join(
             '%s %d calls' % (os.path.basename(f)[:-5], e['coverage']['transitions']) for f, e in zip(sorted(glob.glob(sys.argv[1] + '/*.json')), ev))
c['samples'] = ['exp64 of a quiet NaN', 'strtod of a string that ends at an unmapped page', 'the cast of a non-canonical _Decimal64 to __int128']
out = {'property': 'C32', 'tier': 'quick' if sys.argv[3] != 'thorough' else 'thorough', 'seed': ev[0]['seed'], 'level': 'model_checking', 'coverage': c,
       'assumptions': ['gcc 13.3 sanitizers see every access of the instrumented library; writes made inside libc on its behalf are not instrumented',
                       'shift counts are not checked'],
       'wall_s': round(sum(e['wall_s'] for e in ev), 2), 'violations': sum(e['violations'] for e in ev)}
json.dump(out, open(sys.argv[2] + '.tmp', 'w'), indent=1); os.rename(sys.argv[2] + '.tmp', sys.argv[2])
