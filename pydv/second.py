"""cvc5 as a second back end, on the SMT-LIB text of the obligation."""
import z3


def check(conds, timeout_ms):
    import cvc5
    s = z3.Solver()
    s.add(conds)
    text = s.to_smt2()
    text = text.replace('(check-sat)', '')
    tm = cvc5.TermManager()
    slv = cvc5.Solver(tm)
    slv.setOption('tlimit-per', str(int(timeout_ms)))
    slv.setLogic('ALL')
    p = cvc5.InputParser(slv)
    p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, 'obligation')
    sm = p.getSymbolManager()
    while True:
        cmd = p.nextCommand()
        if cmd.isNull():
            break
        cmd.invoke(slv, sm)
    r = slv.checkSat()
    if r.isUnsat():
        return 'unsat'
    if r.isSat():
        return 'sat'
    return 'unknown'
