"""G03: every file that a fixture is given travels in the GDTF archive or buffer, reaches the objects that use it and outlives a rewrite."""
import m03
def main(tier): return m03.main(tier, "G03", ("gdtf", "mem"))
