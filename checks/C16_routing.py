from vlib.core import *
from vlib import pol
from checks.C15_polarization import compare_powers

R = Registry('C16', 'routing by direction, wavelength and polarization')


@R.law(pol.network(kinds=['hm', 'hm', 'hsel', 'hsel', 'circ', 'mir'], harmonics=True, loss=True, max_els=5), n=600, thorough=10000, shards=5,
       rule='a detector is lit and only matching light enters the selected ports')
def harmonics_are_routed(net):
    return compare_powers(net)


@R.law(pol.network(kinds=['circ', 'circ', 'circ', 'sel', 'psel', 'hsel', 'mir', 'rot'], harmonics=True, max_els=6, lasers=4), n=600, thorough=10000, shards=5,
       rule='a detector is lit and only matching light enters the selected ports')
def circulators_and_selectors_route(net):
    return compare_powers(net)


@R.law(st.tuples(pol.network(kinds=['circ', 'hm', 'hsel', 'mir', 'circ'], harmonics=True, max_els=5, mods=True), logf(0, 6), st.integers(0, 50)),
       n=400, thorough=7000, shards=4, rule='a lit detector and a modulator present')
def modulation_is_routed(case):
    from checks.C15_polarization import compare_response
    return compare_response(case)
