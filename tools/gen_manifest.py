#!/usr/bin/env python3-vt
"""Writes MANIFEST.json: a property whose functions are under contract is claimed as proof (with the bounded
remainder named), one that only has a native driver as exploration."""
import os, sys, json, importlib
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT + '/vc', ROOT + '/contracts']
NA = {'C21': 'The single_header files are generated text of about 10000 lines per variant. That two programs compiled from different files behave alike is a relational statement over every program that includes them; no contract on a function expresses it and the deductive back end here has no relational mode. (The generator is not run by the build, and this tree\'s single headers lag behind include/.)',
      'C22': 'Needs the MSVC ABI and compiler; include/mockutils/mscpp is not compiled by any tool that is installed here, so no obligation can be generated from the code.'}
NOTES = json.load(open(ROOT + '/tools/level_notes.json'))
groups = [importlib.import_module(f[:-3]).GROUP for f in sorted(os.listdir(ROOT + '/contracts')) if f.endswith('.py') and not f.startswith('_')]
checks = []
for i in range(1, 21):
    p = 'C%02d' % i
    specs = [(g, s) for g in groups for s in g.specs if p in s.props]
    cmd = 'python3-vt check.py %s' % p
    e = dict(property=p, quick_cmd=cmd, thorough_cmd=cmd, evidence_file='evidence/%s.json' % p)
    con = [s for g, s in specs if not g.program]; thm = [s for g, s in specs if g.program]
    FIXED = 'bounded in shape: %d theorems about client programs with a fixed number of stubbings and calls, for all argument values, criteria and results, the library walked in place (%s)' % (len(thm), ', '.join(s.id for s in thm[:6]) + (', ...' if len(thm) > 6 else ''))
    if con:
        e.update(technique='contracts on the real functions, discharged by a deductive verifier over LLVM IR (z3/cvc5); plus theorems about whole client programs and a native search for failing inputs', level='proof',
                 level_note='; '.join(x for x in (NOTES.get(p, ''), FIXED if thm else '', 'bounded: native driver over enumerated and random histories') if x), theorems=['%s: %s' % (s.id, ' '.join(s.doc.split())) for s in con])
    elif thm:
        e.update(technique='theorems about whole client programs, discharged by a deductive verifier over LLVM IR (z3) with the library walked in place, counterexamples replayed on the compiled program; plus a native search for failing inputs', level='other', level_note='; '.join(x for x in (NOTES.get(p, ''), FIXED, 'bounded: native driver over enumerated and random histories') if x))
    else:
        e.update(technique='native search over enumerated and random histories against an independent model (bounded)', level='exploration', level_note=NOTES.get(p, '') or 'bounded: nothing is proved for this property yet')
    checks.append(e)
m = dict(version=1, setup_cmd='python3-vt -c "import z3"', hooks=dict(guard='VERIF_NONE', enable='no hooks: the checks compile the unchanged headers of /repo', source_commits=[]),
         checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
         notes='Every check compiles /repo/include and /repo/config/standalone afresh (VERIF_REPO overrides the path). UNDECIDED lines name obligations that the verifier could neither discharge nor refute; they are not reported as violations. See DESIGN.md.')
json.dump(m, open(ROOT + '/MANIFEST.json', 'w'), indent=1)
