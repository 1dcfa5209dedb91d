import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import framework, categories
framework.main("C09", categories.check, explain="Parser::parse is interpreted with a category mask in a known-bits domain: for every requested category, every category it refers to is parsed when the document has it and is reported as available; with every mask that needs nothing of a category that category is neither parsed nor reported")
