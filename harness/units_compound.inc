// compound unit, factor to the second one, the second one
E("J/(mol*K)", 1.0, "J/K/mol")
E("J/K/mol", 1.0, "kg*m*m/s/s/K/mol")
E("cal/(mol*K)", 4.184, "J/(mol*K)")
E("kJ/mol", 1000.0, "J/mol")
E("kcal/mol", 4184.0, "J/mol")
E("cm3/mol", 1.0000000000000002e-06, "m3/mol")
E("J/bar", 1e-05, "m3")
E("cal/bar", 4.184e-05, "m3")
E("cal/(mol*bar)", 4.184e-05, "m3/mol")
E("(cal*K)/(mol*bar)", 4.184e-05, "m3*K/mol")
E("cal*K/(mol*bar)", 4.184e-05, "(m3*K)/mol")
E("J/(mol*K^2)", 1.0, "J/mol/K/K")
E("cal/(mol*K^2)", 4.184, "J/mol/K^2")
E("(J*K)/mol", 1.0, "J*K/mol")
E("J*K^0.5/mol", 1.0, "J/mol*K^0.5")
E("J/(mol*K^0.5)", 1.0, "J/mol/K^0.5")
E("J/(mol*K^1.5)", 1.0, "J/mol/K^1.5")
E("1/K", 1.0, "1/K")
E("1/bar", 1e-05, "1/Pa")
E("1/kbar", 1e-08, "1/Pa")
E("1/(bar*K)", 1e-05, "1/Pa/K")
E("1/(kbar/K)", 1e-08, "1/(Pa/K)")
E("(kg/m3)/(K*Pa)", 1.0, "kg/m3/K/Pa")
E("(g/cm3)/(K*bar)", 0.009999999999999998, "kg/m/m/m/K/Pa")
E("g/cm3", 999.9999999999999, "kg/m3")
E("kbar/K", 100000000.0, "Pa/K")
E("(J/mol)/(K/bar)", 99999.99999999999, "J*Pa/mol/K")
E("J/(mol/(K*K))", 1.0, "J*K*K/mol")
E("((kJ))", 1000.0, "J")
E("(kJ)/(mol)", 1000.0, "J/mol")
E("kJ*(1/mol)", 1000.0, "J/mol")
E("m/(s*s)*kg", 1.0, "N")
E("kg/(m/(s/hour))", 0.0002777777777777778, "kg*s/m/s")
E("cal/mol/K/bar", 4.184e-05, "J/mol/K/Pa")
E("(cal/mol)/(K*bar^2)", 4.184e-10, "J/mol/K/(Pa*Pa)")
E("1/bar^2", 1e-10, "1/(Pa*Pa)")
E("J/bar^2", 1e-10, "J/Pa/Pa")
E("cm3/(mol*bar)", 1.0000000000000001e-11, "m3/mol/Pa")
E("kJ/(molal)", 1000.0, "J/molal")
E("uL/(km*um)", 1e-06, "m")
