"""Shared by all harnesses."""


def cut(c, stubs=None):
    """Fresh copy of the code under test with the standard stubs."""
    st = {}
    if c.symbolic:
        st["re"] = c.re_stub()
    if stubs:
        st.update(stubs)
    return c.load_cut(st)
