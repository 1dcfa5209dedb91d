import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import framework, extensions
framework.main("C08", extensions.check, explain="the abstract interpretation of the parser is repeated with each extension disabled: no value read below that extension may reach an asset member of an accepted document; and with extensionsRequired forced to each supported and to an unknown name: accepted exactly if that extension is enabled")
