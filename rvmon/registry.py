import importlib

WHERE = {}
for _mod, _ids in {
    "p_losses": ["C01", "C02", "C03", "C04"],
    "p_predict": ["C05", "C06", "C07", "C08"],
    "p_stats": ["C09", "C10", "C11", "C12", "C13", "C14", "C15"],
    "p_curves": ["C16", "C17", "C18", "C19", "C20", "C21", "C22"],
    "p_bench": ["C23", "C24"],
    "p_split": ["C25", "C26", "C27"],
    "p_format": ["C28", "C29", "C30", "C31", "C32", "C33"],
    "p_util": ["C34", "C35"],
    "p_global": ["C36", "C37", "C38"],
}.items():
    for _i in _ids:
        WHERE[_i] = _mod


def load(pid):
    importlib.import_module("rvmon." + WHERE[pid])
