#!/usr/bin/env python3
"""check.py <property>: decide one property from /repo's current sources."""
import os
import signal
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.setrecursionlimit(20000)
import absint  # noqa: E402
import report  # noqa: E402

TECH = {
    'P01': ('p_gen', 'abstract interpretation of the generator into an output template, instantiated per schema shape and analysed as TypeScript syntax trees: lockstep matching of write and read effects'),
    'P02': ('p_gen', 'abstract interpretation of the generator into an output template, instantiated per schema shape and analysed as TypeScript syntax trees: matching of every field against the wire grammar'),
    'P03': ('p_gen', 'abstract interpretation of the generator into an output template, instantiated per schema shape and analysed as TypeScript syntax trees: order and multiplicity of the members; order of the resolved fields'),
    'P04': ('p_gen', 'abstract interpretation of the generator into an output template, instantiated per schema shape and analysed as TypeScript syntax trees: def-use routing of every value'),
    'P05': ('p_gen', 'abstract interpretation of the generator into an output template, instantiated per schema shape and analysed as TypeScript syntax trees: enum constants and primitive width; bit positions derived from the type checker'),
    'P06': ('p_gen', 'abstract interpretation of the generator into an output template, instantiated per schema shape and analysed as TypeScript syntax trees: guards of every enum assignment'),
    'P07': ('p_gen', 'abstract interpretation of the generator into an output template, instantiated per schema shape and analysed as TypeScript syntax trees: typestate of the failure flag on every exit'),
    'P08': ('p_gen', 'abstract interpretation of the generator into an output template, instantiated per schema shape and analysed as TypeScript syntax trees: declarations and their types; reachability filter of the type checker'),
    'P09': ('p_gen', 'abstract interpretation of the generator into an output template, instantiated per schema shape and analysed as TypeScript syntax trees: syntax, scoping and imported names'),
    'P10': ('p_check', "abstract interpretation of the type checker into outcome conditions for all schemas, compared with the language's rules on schema schemes: duplicates"),
    'P11': ('p_check', "abstract interpretation of the type checker into outcome conditions for all schemas, compared with the language's rules on schema schemes: exports"),
    'P12': ('p_check', "abstract interpretation of the type checker into outcome conditions for all schemas, compared with the language's rules on schema schemes: unknown and recursive types"),
    'P13': ('p_check', "abstract interpretation of the type checker into outcome conditions for all schemas, compared with the language's rules on schema schemes: enum sizes and optional arrays"),
    'P14': ('p_check', "abstract interpretation of the type checker into outcome conditions for all schemas, compared with the language's rules on schema schemes: valid schemas"),
    'P15': ('p_total', 'panic reachability and termination: abstract interpretation of grammar actions, type checker, generator and error rendering with every panicking path cut off, completeness of the remaining outcomes on schema schemes and texts; grammar checked for left recursion and empty repetitions'),
    'P16': ('p_det', 'abstract interpretation of checker, generator and error rendering with every source of nondeterminism kept as a term (hash order, clock, environment, globals), results compared between assignments of the sources'),
    'P17': ('p_syntax', 'grammar-to-automaton translation, language equivalence against the specification grammar'),
    'P18': ('p_syntax', 'grammar-to-automaton translation, language equivalence against the specification grammar'),
    'P19': ('p_ast', 'grammar actions derived by abstract interpretation, captures followed to the syntax tree; marked languages compared with the specification grammar over all texts'),
    'P20': ('p_pipe', 'abstract interpretation of compile and of the rendering of errors, compared with the position rules on texts and error positions'),
    'P21': ('p_cli', 'abstract interpretation of the main function into outcome conditions and file effects, compared with the rules on file trees: failing operations'),
    'P22': ('p_cli', 'abstract interpretation of the main function into outcome conditions and file effects, compared with the rules on file trees: order and content of the writes'),
    'P23': ('p_cli', 'abstract interpretation of the main function into outcome conditions and file effects, compared with the rules on file trees: output paths'),
    'P24': ('p_cli', 'abstract interpretation of the main function into outcome conditions and file effects, compared with the rules on file trees: files compiled'),
    'P25': ('p_check', "abstract interpretation of the type checker into outcome conditions for all schemas, compared with the language's rules on schema schemes: error messages"),
}


def main():
    prop = sys.argv[1]
    mod, tech = TECH[prop]
    rep = report.Report(prop)

    def late(*_):
        raise TimeoutError('time limit of the check')
    signal.signal(signal.SIGALRM, late)
    signal.alarm(780)
    m = __import__(mod)
    try:
        getattr(m, 'check_' + prop)(rep)
    except absint.Anchor as e:
        rep.error('%s was not found' % e)
    except Exception as e:
        # the analysis itself gave up: what was derived so far stands, the rest is undecided
        traceback.print_exc(file=sys.stdout)
        rep.unsure('analysis', '%s: %s' % (type(e).__name__, e))
    sys.exit(report.finish(rep, tech))


main()
