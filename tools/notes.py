_CALLS = ("TLA+ model of the C interface and of the results it may give (spec/Calls.tla; TLC enumerates histories of calls), each performed on the real code and its record checked against "
          "the specification by TLC; recorded random histories checked likewise")
TECH.update({"P11": _CALLS, "P12": _CALLS})
_GRAMMAR = ("TLA+ definition of the small languages inside a blueprint (spec/Grammar.tla, spec/Signature.tla), laws checked by TLC over all short texts and all texts written from parts; "
            "every enumerated text replayed into the real code, recorded random histories checked against the specification by TLC")
TECH.update({i: _GRAMMAR for i in ("P08", "P10", "P13")})
TECH.update({"P09": "TLA+ model of MSON data structures, of how they are read and of the elements they mean, raw and expanded (spec/Mson.tla in spec/Blue.tla; TLC, exhaustive over small structures), "
                    "every document written out, parsed by the real parser and compared; recorded parses of random documents checked against the same specification by TLC",
             "P14": "TLA+ model of API Blueprint documents with MSON and of the bodies and schemas made for them (spec/Mson.tla, spec/Values.tla in spec/Blue.tla; TLC, exhaustive over small documents and all options), "
                    "every document written out, parsed by the real parser and compared; recorded parses of random documents checked against the same specification by TLC"})
