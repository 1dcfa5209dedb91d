import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import framework, enums
framework.main("C05", enums.check, explain="every text or number of every enumerated property is forced into the read of that property in an abstract interpretation of the parser; the member must hold exactly the enumerator glTF assigns to it, and no enumerator for undefined values; the name tables are decided by static_assert witnesses")
