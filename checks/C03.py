import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import framework, mapping
def run(ctx): mapping.decide(ctx, ("ok", "nsf"), ctx.thorough)
framework.main("C03", run, explain="value-flow abstract interpretation of the parser against the table of glTF properties")
