import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import framework, extras
framework.main("C10", extras.check, explain="every call of the extras parse callback (found by abstract interpretation of the parse functions) is given the extras object of the element being read, the index that element gets (the number of elements of its own collection before it), its own category and the pointer that was set; the same for the write callback, whose text is written as the extras of the same object")
