PROP.update({"convert N(D) given to sample": "P08", "apply D_conversion_factor": "P10", "sample falls back to": "P08", "crater time is never in the future": "P10", "crater ages are drawn in proportion": "P08", "chronology of the power law": "P07", "N(1 km) of the Neukum": "P07", "Production.maker follows": "P07"})
PROP.update({"diameter_number_end at another diameter": "P08", "flat part of a size distribution": "P09", "sequence confined to the present": "P10"})
PROP.update({"run accepts N_D together": "P11", "elapsed_time counts": "P11", "equal number intervals never ends below": "P11", "a continued run starts": "P11"})
PROP.update({"faces of equal area": "P12", "impact angle they name": "P13", "projectile limits of a crater-based": "P13", "given after a run started": "P13"})
PROP.update({k: "P14" for k in ("settings given before the base class is initialised", "mass and transition type of a target", "slope and coefficient of a power law", "monte_carlo_scaling given to a scaling model", "a density given to a scaling model", "properties given to a projectile model", "arguments given when a simulation is resumed", "a resumed simulation restores its random state", "a resumed simulation keeps its configuration file", "density a target takes from its material")})
PROP.update({"quasi-Monte Carlo craters given to Production.maker are dated": "P10", "setting rng_state sets the state": "P14", "asteroids and comets that are not sampled": "P04"})
PROP.update({"no file is removed when one of several": "P15", "a cancelled reset leaves": "P15", "resetting a simulation does not ask again": "P15"})
PROP.update({k: "P17" for k in ("craters with different sets of attributes", "craters of the last interval can be read from", "craters can be exported from a dictionary", "a CSV export contains the attributes", "craters exported to CSV can be imported", "current craters can be exported to SCC", "time variables of one interval", "saved files are read in the order", "resuming restores the craters of the last", "emplaced craters of an earlier interval", "craters that are present in several intervals")})
PROP.update({"a name given when a crater is copied": "P03"})
PROP.update({"emplacing an empty list": "P18"})
PROP.update({"forming ejecta when nothing": "P19", "ejecta that fall nowhere": "P19"})
PROP.update({"as many faces as nodes": "P20", "a subregion contains the nodes": "P20", "computing a reference surface": "P20"})
PROP.update({"counting a part of the surface": "P21", "the rim of every crater tallied": "P21"})
