"""Nothing to build: verifies that the tools the checks need are present."""
import z3
import yaml
print("z3", z3.get_version_string(), "yaml", yaml.__version__)
