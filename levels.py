"""Technique and level note of every check (for MANIFEST.json)."""
_R = "TLA+/TLC: exhaustive model checking of the link specification at small frame sizes; TLC behaviours replayed in the real receivers; real runs judged by TLC and by tables TLC exported"
_RN = ("Specification explored exhaustively by TLC with short frames; the real code bound by replay of TLC behaviours through every "
       "front end and clock type, by monitored random and swept runs (tables exported by TLC), and by TLC trace validation.")
_T = "TLA+/TLC: %s; conformance by replay of TLC behaviours into the real code and TLC validation of recorded runs"
TECH = {p: _R for p in ("C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C24")}
NOTES = {p: _RN for p in TECH}
TECH.update({
    "C01": _T % "sender, air and receiver composed in one specification, model checked",
    "C10": _T % "receiver specification replayed through every front end and clock type",
    "C11": _T % "poll counter with a small modulus model checked, nominal frames at every sampling phase",
    "C12": _T % "product of independent receivers",
    "C13": _T % "sender state machine, all interleavings of load and tick",
    "C14": _T % "waveform specification in exact rational arithmetic",
    "C15": _T % "time stamp arithmetic model checked on a small clock",
    "C16": _T % "windows computed by TLC for every protocol and frequency, compared with the code's classification of every duration",
    "C17": _T % "remote control tables, all addresses and codes",
    "C18": _T % "command representations, enumerated by TLC",
    "C19": _T % "totality of the decoder specification model checked",
    "C20": _T % "decoder contract model checked (action property and invariants)",
    "C21": "TLA+/TLC enumerates the feature lattice with the API each combination must offer; every case is compiled",
    "C22": "TLA+/TLC enumerates builder call sequences and their meaning; every case is compiled and run against a directly built receiver",
    "C25": _T % "recorder, file and reader model checked; files written from TLC behaviours read by the real program",
    "C23": _T % "pin faults inserted at every position",
})
NOTES.update({p: "Specification checked by TLC within the stated bounds; the real code is bound to it by replayed TLC cases, monitored runs and TLC validation of recorded runs (bounds in evidence)."
              for p in TECH if p not in NOTES})
