import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import framework, mapping
def run(ctx): mapping.decide(ctx, ("nsf", "type"), ctx.thorough)
framework.main("C02", run, explain="forced-outcome abstract interpretation of the parser against the table of glTF properties")
