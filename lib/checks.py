"""Dispatch: one function per property."""
import checks_pipe, checks_hre, checks_hist, checks_conc, checks_hsl, checks_tr, checks_cli, checks_wasm, checks_mods
MODS = [checks_pipe, checks_hre, checks_hist, checks_conc, checks_hsl, checks_tr, checks_cli, checks_wasm, checks_mods]


def run(c):
    for m in MODS:
        f = getattr(m, c.id, None)
        if f:
            return f(c)
    raise SystemExit("no check for " + c.id)
