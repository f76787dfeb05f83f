"""Which components decide which property."""
from components import AVG, CACHE, CONFIG, DIVISION, F0, GRID, LAYERS, LIFE, M, P0, PAIRS, PRECIP, PROOF, T, W0

ASSUMPTIONS = [
    'IEEE-754 double arithmetic of the JVM (StrictMath) agrees with numpy to the tolerances stated in DESIGN.md',
    'snow densities exceed the mass of the liquid water the configuration lets them hold',
    'sensor heights stay above the snow surface plus roughness (C21 covers the refusal)',
]

PLAN = {
    'C01': [T(['any', 'fresh', 'layers', 'wet', 'ties', 'aimed', 'wide', 'vanish', 'long', 'spread', 'spread', 'spread'], 32000), M('Conservation'), PAIRS(['any', 'wet', 'layers'])],
    'C02': [T(['any', 'layers', 'vapour', 'wide', 'aimed', 'vanish', 'long', 'spread', 'spread', 'spread'], 32000), M('EnergySums'), PAIRS(['any', 'steps', 'layers'])],
    'C03': [T(['any', 'refreeze', 'wet', 'aimed', 'aimed', 'wide', 'vanish', 'spread', 'spread', 'spread'], 34000), M('EnergySpent'), F0],
    'C04': [T(['any', 'refreeze', 'layers', 'aimed', 'wide', 'vanish', 'spread', 'spread', 'spread'], 32000), M('Temperatures'), F0],
    'C05': [T(['any', 'layers', 'fresh', 'compact', 'ties', 'aimed', 'wide', 'vanish', 'long', 'spread', 'spread', 'spread'], 32000), M('LayersConsistent'), LAYERS],
    'C06': [T(['layers', 'fresh', 'any', 'ties', 'aimed', 'wide', 'vanish', 'long', 'spread', 'spread', 'spread'], 32000), M('LayerRules'), LAYERS, W0],
    'C07': [T(['wet', 'fresh', 'any', 'refreeze', 'aimed', 'wide', 'vanish', 'long', 'spread', 'spread', 'spread'], 32000), M('WaterHeldWithinCapacity'), F0],
    'C08': [T(['compact', 'any', 'wet', 'wide', 'aimed', 'vanish', 'long', 'spread', 'spread', 'spread'], 32000), M('DensityRules')],
    'C09': [T(['vapour', 'any', 'layers', 'wide', 'aimed', 'vanish', 'spread', 'spread', 'spread'], 32000), M('VapourRules'), F0],
    'C10': [T(['steps', 'any', 'ties', 'wide', 'aimed', 'vanish', 'long', 'spread', 'spread', 'spread'], 32000), M('Tiling'), GRID, PROOF('StepTime', ['Covered', 'InStep']), DIVISION, W0],
    'C11': [T(['jump', 'any', 'steps', 'wide', 'wide', 'spread', 'spread', 'spread'], 28000), M('EvenPrecip'), GRID, PROOF('StepTime', ['Covered', 'InStep'])],
    'C12': [T(['precip', 'any', 'fresh', 'aimed', 'wide', 'vanish', 'long', 'spread', 'spread', 'spread'], 32000), M('PrecipRules'), PRECIP, W0],
    'C13': [P0, AVG, M('OutputTotals'), GRID, F0, W0],
    'C14': [P0, PRECIP, W0],
    'C15': [T(['any', 'still', 'rough', 'near', 'aimed', 'wide', 'spread', 'spread', 'spread'], 28000), M('ExchangeRules'), F0],
    'C16': [T(['heights', 'near', 'near', 'any', 'wide', 'spread', 'spread', 'spread'], 30000), M('HeightRules'), W0],
    'C17': [T(['still', 'any', 'aimed', 'wide', 'vanish', 'spread', 'spread', 'spread'], 32000), M('ConductionRules'), F0],
    'C18': [W0],
    'C19': [W0],
    'C20': [T(['any', 'layers', 'wet', 'ties', 'wide', 'long', 'spread', 'spread', 'spread'], 24000), M('StartRules'), W0],
    'C21': [T(['any', 'layers', 'fresh', 'vapour', 'rough', 'limits', 'near', 'wide', 'aimed', 'vanish', 'long', 'spread', 'spread', 'spread'], 36000), M('NeverStops'), F0, PRECIP, LAYERS, W0],
    'C22': [CACHE, F0],
    'C24': [LIFE, DIVISION, W0],
    'C25': [AVG, F0],
    'C26': [CONFIG],
}

DEFAULT_NOTE = (
    'Every recorded run step of the code is compared by TLC with the one the specification allows '
    '(sampled forcing, configuration and snowcovers; exhaustive only within the bounded models). '
    'Trusts TLC, the F64 arithmetic override and the recording harness.')
NOTES = {}
NOT_APPLICABLE = {
    'C23': 'the gridded drivers do not run at this commit (iSnobal.__init__ raises TypeError, '
           'iPySnobal.run NameError) and no netCDF backend is installed, so there is no behaviour to bind a model to',
}
