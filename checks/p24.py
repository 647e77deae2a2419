"""P24: the executions of P16 (every single fault of packaging); judged by what is left behind and what was changed."""
from checks import p16
def run(tier): return p16.run(tier, "P24")
