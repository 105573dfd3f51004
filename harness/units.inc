// unit, value in SI base units, dimension
U("1", 1, "1")
U("%%", 0.01, "1")
U("percent", 0.01, "1")
U("permil", 0.001, "1")
U("ppm", 1e-06, "1")
U("ppb", 1e-09, "1")
U("g", 0.001, "kg")
U("kg", 1, "kg")
U("mg", 1e-06, "kg")
U("ug", 1e-09, "kg")
U("ng", 1e-12, "kg")
U("tonne", 1000.0, "kg")
U("lb", 0.45359237, "kg")
U("amu", 1.66053907e-27, "kg")
U("ton", 907.18474, "kg")
U("gram", 0.001, "kg")
U("grams", 0.001, "kg")
U("kilogram", 1, "kg")
U("kilograms", 1, "kg")
U("lbm", 0.45359237, "kg")
U("m", 1, "m")
U("km", 1000.0, "m")
U("cm", 0.01, "m")
U("mm", 0.001, "m")
U("um", 1e-06, "m")
U("nm", 1e-09, "m")
U("Angstrom", 1e-10, "m")
U("in", 0.0254, "m")
U("mil", 2.5399999999999997e-05, "m")
U("ft", 0.3048, "m")
U("yd", 0.9144000000000001, "m")
U("mi", 1609.344, "m")
U("nauticalmile", 1852, "m")
U("lightyear", 9460730472580800, "m")
U("au", 149597870700, "m")
U("feet", 0.3048, "m")
U("foot", 0.3048, "m")
U("inch", 0.0254, "m")
U("inches", 0.0254, "m")
U("meter", 1, "m")
U("meters", 1, "m")
U("mile", 1609.344, "m")
U("miles", 1609.344, "m")
U("yard", 0.9144000000000001, "m")
U("yards", 0.9144000000000001, "m")
U("s", 1, "s")
U("ms", 0.001, "s")
U("us", 1e-06, "s")
U("ns", 1e-09, "s")
U("minute", 60, "s")
U("hour", 3600, "s")
U("day", 86400, "s")
U("week", 604800, "s")
U("month", 2629743.8400000003, "s")
U("year", 31556926.080000002, "s")
U("second", 1, "s")
U("seconds", 1, "s")
U("minutes", 60, "s")
U("hours", 3600, "s")
U("days", 86400, "s")
U("weeks", 604800, "s")
U("months", 2629743.8400000003, "s")
U("years", 31556926.080000002, "s")
U("A", 1, "A")
U("MA", 1000000.0, "A")
U("kA", 1000.0, "A")
U("mA", 0.001, "A")
U("uA", 1e-06, "A")
U("nA", 1e-09, "A")
U("pA", 1e-12, "A")
U("ampere", 1, "A")
U("amperes", 1, "A")
U("mol", 1, "mol")
U("mmol", 0.001, "mol")
U("umol", 1e-06, "mol")
U("mole", 1, "mol")
U("moles", 1, "mol")
U("cd", 1, "cd")
U("candela", 1, "cd")
U("radian", 1, "radian")
U("mradian", 0.001, "radian")
U("uradian", 1e-06, "radian")
U("deg", 0.017453292519943295, "radian")
U("degree", 0.017453292519943295, "radian")
U("degrees", 0.017453292519943295, "radian")
U("sr", 1, "sr")
U("steradian", 1, "sr")
U("m2", 1, "m*m")
U("m^2", 1, "m*m")
U("mm2", 1e-06, "m*m")
U("mm^2", 1e-06, "m*m")
U("cm2", 0.0001, "m*m")
U("cm^2", 0.0001, "m*m")
U("in2", 0.00064516, "m*m")
U("in^2", 0.00064516, "m*m")
U("ft2", 0.09290304, "m*m")
U("ft^2", 0.09290304, "m*m")
U("hectare", 10000.0, "m*m")
U("acre", 4046.8726, "m*m")
U("barn", 1e-28, "m*m")
U("hectares", 10000.0, "m*m")
U("acres", 4046.8726, "m*m")
U("barns", 1e-28, "m*m")
U("m3", 1, "m*m*m")
U("m^3", 1, "m*m*m")
U("mm3", 1e-09, "m*m*m")
U("mm^3", 1e-09, "m*m*m")
U("cm3", 1.0000000000000002e-06, "m*m*m")
U("cm^3", 1.0000000000000002e-06, "m*m*m")
U("in3", 1.6387064e-05, "m*m*m")
U("in^3", 1.6387064e-05, "m*m*m")
U("ft3", 0.028316846592000004, "m*m*m")
U("ft^3", 0.028316846592000004, "m*m*m")
U("l", 0.001, "m*m*m")
U("ml", 1e-06, "m*m*m")
U("ul", 1e-09, "m*m*m")
U("L", 0.001, "m*m*m")
U("mL", 1e-06, "m*m*m")
U("uL", 1e-09, "m*m*m")
U("gal", 0.00454609, "m*m*m")
U("quart", 0.0011365225, "m*m*m")
U("cc", 1e-06, "m*m*m")
U("gallon", 0.00454609, "m*m*m")
U("gallons", 0.00454609, "m*m*m")
U("liter", 0.001, "m*m*m")
U("liters", 0.001, "m*m*m")
U("mps", 1, "m/s")
U("cmps", 0.01, "m/s")
U("mph", 0.44704, "m/s")
U("knot", 0.5144444444444445, "m/s")
U("fps", 0.3048, "m/s")
U("mpss", 1, "m/s/s")
U("fpss", 0.3048, "m/s/s")
U("gravity", 9.80665, "m/s/s")
U("Hz", 1, "1/s")
U("kHz", 1000.0, "1/s")
U("MHz", 1000000.0, "1/s")
U("GHz", 1000000000.0, "1/s")
U("rpm", 0.016666666666666666, "1/s")
U("hertz", 1, "1/s")
U("gps", 0.00454609, "m*m*m/s")
U("gpm", 7.576816666666667e-05, "m*m*m/s")
U("gph", 1.2628027777777779e-06, "m*m*m/s")
U("cfs", 0.028316846592000004, "m*m*m/s")
U("cfm", 0.0004719474432000001, "m*m*m/s")
U("lps", 0.001, "m*m*m/s")
U("lpm", 1.6666666666666667e-05, "m*m*m/s")
U("N", 1, "kg*m/s/s")
U("kN", 1000.0, "kg*m/s/s")
U("lbf", 4.4482216152605, "kg*m/s/s")
U("dyne", 1e-05, "kg*m/s/s")
U("dynes", 1e-05, "kg*m/s/s")
U("newton", 1, "kg*m/s/s")
U("newtons", 1, "kg*m/s/s")
U("Pa", 1, "kg/m/s/s")
U("kPa", 1000.0, "kg/m/s/s")
U("MPa", 1000000.0, "kg/m/s/s")
U("GPa", 1000000000.0, "kg/m/s/s")
U("atm", 101325, "kg/m/s/s")
U("mmHg", 133.322387, "kg/m/s/s")
U("inHg", 3386.3886, "kg/m/s/s")
U("psi", 6894.757293168361, "kg/m/s/s")
U("kpsi", 6894757.293168361, "kg/m/s/s")
U("Mpsi", 6894757293.168361, "kg/m/s/s")
U("psf", 47.88025898033584, "kg/m/s/s")
U("bar", 100000.0, "kg/m/s/s")
U("kbar", 100000000.0, "kg/m/s/s")
U("torr", 133.322368, "kg/m/s/s")
U("inH2O", 249.08891, "kg/m/s/s")
U("ftH2O", 2989.06692, "kg/m/s/s")
U("pascal", 1, "kg/m/s/s")
U("pascals", 1, "kg/m/s/s")
U("J", 1, "kg*m*m/s/s")
U("kJ", 1000.0, "kg*m*m/s/s")
U("MJ", 1000000.0, "kg*m*m/s/s")
U("erg", 1e-07, "kg*m*m/s/s")
U("cal", 4.184, "kg*m*m/s/s")
U("kcal", 4184, "kg*m*m/s/s")
U("eV", 1.6021766e-19, "kg*m*m/s/s")
U("keV", 1.6021766e-16, "kg*m*m/s/s")
U("MeV", 1.6021766e-13, "kg*m*m/s/s")
U("GeV", 1.6021766e-10, "kg*m*m/s/s")
U("btu", 1055.05585, "kg*m*m/s/s")
U("calorie", 4.184, "kg*m*m/s/s")
U("calories", 4.184, "kg*m*m/s/s")
U("joule", 1, "kg*m*m/s/s")
U("joules", 1, "kg*m*m/s/s")
U("W", 1, "kg*m*m/s/s/s")
U("watts", 1, "kg*m*m/s/s/s")
U("C", 1, "A*s")
U("coulomb", 1, "A*s")
U("coulombs", 1, "A*s")
U("mC", 0.001, "A*s")
U("V", 1, "kg*m*m/A/s/s/s")
U("volt", 1, "kg*m*m/A/s/s/s")
U("volts", 1, "kg*m*m/A/s/s/s")
U("mV", 0.001, "kg*m*m/A/s/s/s")
U("ohm", 1, "kg*m*m/A/A/s/s/s")
U("ohms", 1, "kg*m*m/A/A/s/s/s")
U("S", 1, "A*A*s*s*s/kg/m/m")
U("siemens", 1, "A*A*s*s*s/kg/m/m")
U("F", 1, "A*A*s*s*s*s/kg/m/m")
U("pF", 1e-12, "A*A*s*s*s*s/kg/m/m")
U("nF", 1e-09, "A*A*s*s*s*s/kg/m/m")
U("uF", 1e-06, "A*A*s*s*s*s/kg/m/m")
U("mF", 0.001, "A*A*s*s*s*s/kg/m/m")
U("farad", 1, "A*A*s*s*s*s/kg/m/m")
U("farads", 1, "A*A*s*s*s*s/kg/m/m")
U("Wb", 1, "kg*m*m/A/s/s")
U("weber", 1, "kg*m*m/A/s/s")
U("webers", 1, "kg*m*m/A/s/s")
U("T", 1, "kg/A/s/s")
U("gauss", 0.0001, "kg/A/s/s")
U("tesla", 1, "kg/A/s/s")
U("teslas", 1, "kg/A/s/s")
U("H", 1, "kg*m*m/A/A/s/s")
U("mH", 0.001, "kg*m*m/A/A/s/s")
U("uH", 1e-06, "kg*m*m/A/A/s/s")
U("henry", 1, "kg*m*m/A/A/s/s")
U("molal", 1, "mol/kg")
U("mmolal", 0.001, "mol/kg")
U("umolal", 1e-06, "mol/kg")
U("nmolal", 1e-09, "mol/kg")
U("molar", 1000.0, "mol/m/m/m")
U("mmolar", 1, "mol/m/m/m")
U("umolar", 0.001, "mol/m/m/m")
U("nmolar", 1e-06, "mol/m/m/m")
U("eq", 1, "eq")
U("meq", 0.001, "eq")
U("ueq", 1e-06, "eq")
U("neq", 1e-09, "eq")
U("K^2", 1, "K*K")
U("K^3", 1, "K*K*K")
U("K^4", 1, "K*K*K*K")
U("K^5", 1, "K*K*K*K*K")
U("K^0.5", 1, "K^0.5")
U("K^1.5", 1, "K*K^0.5")
U("bar^2", 10000000000.0, "kg*kg/m/m/s/s/s/s")
U("bar^3", 1000000000000000.0, "kg*kg*kg/m/m/m/s/s/s/s/s/s")
U("bar^4", 1e+20, "kg*kg*kg*kg/m/m/m/m/s/s/s/s/s/s/s/s")
U("bar^5", 1e+25, "kg*kg*kg*kg*kg/m/m/m/m/m/s/s/s/s/s/s/s/s/s/s")
U("bar^0.5", 1, "bar^0.5")
