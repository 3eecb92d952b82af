"""the contracts of each property"""
import importlib
MODS = {'C06':'c06','C03':'c03','C02':'c02','C18':'c18','C12':'c12','C20':'c20','C16':'c16','C19':'c19','C17':'c17','C15':'c15','C13':'c13','C05': 'c05', 'C07': 'c07', 'C08': 'c08', 'C09': 'c09'}
def jobs(prop, tier):
    if prop not in MODS: return []
    return importlib.import_module(MODS[prop]).jobs(tier)
