import importlib

IDS = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16"]


def load(pid):
    return importlib.import_module(f"dsim.props.{pid.lower()}")
