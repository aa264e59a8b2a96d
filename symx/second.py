"""Second opinion on solver queries: the same assertions given to cvc5."""

import cvc5


def check(z3solver, timeout_ms=5000):
    """'sat', 'unsat' or something else for no answer."""
    text = z3solver.to_smt2()
    tm = cvc5.TermManager() if hasattr(cvc5, 'TermManager') else None
    s = cvc5.Solver(tm) if tm is not None else cvc5.Solver()
    s.setOption('tlimit-per', str(timeout_ms))
    s.setLogic('ALL')
    p = cvc5.InputParser(s)
    p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, 'q.smt2')
    sm = p.getSymbolManager()
    answer = 'none'
    while True:
        cmd = p.nextCommand()
        if cmd.isNull():
            return answer
        name = cmd.getCommandName()
        if name == 'set-info' or name == 'set-logic':
            continue
        r = str(cmd.invoke(s, sm)).strip()
        if name == 'check-sat':
            answer = r
        elif r and 'error' in r:
            return 'none: ' + r
