"""C16: specs/Nonce.tla, specs/NonceM.tla"""
import common
import machine
import nonce
import table


def cases(report):
    t = common.THOROUGH
    table.run(report, "nonce formation", "Nonce", dict(Lens={12, 13, 7}, Types={"Enc0", "Enc"}, Sides={"enc", "dec"}),
              ["FullLength", "IvFirst", "Distinct", "OneSided", "NoReuse"], nonce.case, ("nonce", "case"), reps=6 if t else 1, chunk=128)


def history(report):
    t = common.THOROUGH
    machine.run(report, "nonce of a changing message", "NonceM", nonce.NonceM, dict(Ivs={"a", "b"}, Pivs={"short", "full", "long"}, Bases={"a", "b"}),
                ["TypeOK", "IvAlone", "BaseCounts", "Symmetric"], budget=240 if t else 40, passes=12 if t else 2, seg_len=80)
