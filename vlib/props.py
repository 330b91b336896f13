AREA_OF = {"C01": "num", "C02": "num", "C03": "num", "C04": "vars", "C05": "vars", "C06": "poly", "C07": "poly", "C08": "poly", "C09": "poly", "C10": "poly", "C24": "poly",
           "C11": "gcd", "C12": "gcd", "C13": "factor", "C14": "factor", "C15": "factor", "C16": "elim", "C17": "groebner", "C21": "dense", "C22": "graph", "C23": "random_", "C18": "elim", "C19": "roots", "C20": "roots", "C25": "store"}
LEVEL = {p: "model_checking" for p in AREA_OF}
TECH = {}
NOTE = {"*": "Every recorded call of the explored histories is checked by TLC against the TLA+ specification of the operation (exact oracle); "
             "nothing is claimed about inputs outside the explored set. Trusted: TLC, the BigInt Java override (itself compared with its TLA+ "
             "definition by TLC), the driver's projection of results, g++."}
