from insn import *

ASSUME = ['release profile arithmetic (overflow wraps)', 'the token program either fails or moves exactly the instructed amount; its own rules (balances, ownership, mint match) are outside', 'program-derived addresses are an uninterpreted function of seeds and program', 'accounts with equal keys are one account; their RefCell borrows are modelled as separate cells', 'curve answers are free variables, the same for the same question']
BOUNDS = ['every key, owner, token and mint field, recorded key, fee and curve parameter, amount and limit: full width', 'account list: the documented accounts (plus one host account for trades), account data at its full length', 'each token program call may fail, at every position', 'all five curve types']


IBOUNDS = ["every key, owner, token account and mint field, fee and curve parameter: full width", "account list: the documented eight accounts, account data at its full length, the pool account with any previous 324 bytes", "the mint call may fail", "all five curve types"]
