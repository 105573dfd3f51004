X("entropy", {"J/(mol*K)", "cal/(mol*K)", "kJ/(K*mol)"});
X("heat_capacity", {"J/(mol*K)", "cal/(mol*K)", "kJ/(K*mol)"});
X("atomic_mass", {"g/mol", "kg/mol", "mg/mol"});
X("volume", {"J/bar", "cm^3", "kJ/bar"});
X("sm_heat_capacity_p", {"J/(mol*K)", "cal/(mol*K)", "kJ/(K*mol)"});
X("sm_gibbs_energy", {"J/mol", "cal/mol", "kJ/mol"});
X("sm_enthalpy", {"J/mol", "cal/mol", "kJ/mol"});
X("sm_entropy_abs", {"J/(mol*K)", "cal/(mol*K)", "kJ/(K*mol)"});
X("sm_volume", {"J/bar", "cm^3", "kJ/bar"});
X("mass_per_mole", {"g/mol", "kg/mol", "mg/mol"});
X("m_expansivity", {"1/K", "kbar", "1/K"});
X("m_compressibility", {"kbar", "1e-05/K", "bar"});
X("eos_akinfiev_diamond_coeffs", {"1", "1", "1"}, {"(cm^3)/g", "(m^3)/kg", "(cm^3)/g"}, {"(cm^3*K^0.5)/g", "(m^3*K^0.5)/kg", "(m^3*K^0.5)/kg"});
X("eos_gas_crit_props", {"K", "K", "K"}, {"bar", "MPa", "Pa"}, {"1", "1", ""}, {"1", "1", ""});
X("eos_hkf_coeffs", {"cal/(mol*bar)", "J/(mol*bar)", "cal/(mol*bar)"}, {"cal/mol", "J/mol", "cal/mol"}, {"(cal*K)/(mol*bar)", "(J*K)/(mol*bar)", "(cal*K)/mol"}, {"(cal*K)/mol", "(J*K)/mol", "cal/(mol*K)"}, {"cal/(mol*K)", "J/(mol*K)", "(cal*K)/mol"}, {"(cal*K)/mol", "(J*K)/mol", "cal/mol"}, {"cal/mol", "J/mol", "J/mol"});
X("m_heat_capacity_ft_coeffs", {"J/(mol*K)", "cal/(mol*K)", "kJ/(mol*K)"}, {"J/(mol*K^2)", "cal/(mol*K^2)", "J/(mol*K^2)"}, {"(J*K)/mol", "(cal*K)/mol", "(kJ*K)/mol"}, {"J/(mol*K^0.5)", "cal/(mol*K^0.5)", "J/(mol*K^0.5)"}, {"J/(mol*K^3)", "cal/(mol*K^3)", "kJ/(mol*K^3)"}, {"J/(mol*K^4)", "cal/(mol*K^4)", "J/(mol*K^4)"}, {"J/(mol*K^5)", "cal/(mol*K^5)", "kJ/(mol*K^5)"}, {"(J*K^2)/mol", "(cal*K^2)/mol", "(J*K^2)/mol"}, {"J/mol", "cal/mol", "kJ/mol"}, {"J/(mol*K^1.5)", "cal/(mol*K^1.5)", "J/(mol*K^1.5)"}, {"J/(mol*K)", "cal/(mol*K)", "kJ/(mol*K)"});
X("m_phase_trans_props", {"K", "K", "degC"}, {"J/(mol*K)", "cal/(mol*K)", "kJ/(mol*K)"}, {"J/mol", "cal/mol", "kJ/mol"}, {"J/bar", "cm^3", "kJ/bar"}, {"K/bar", "K/kbar", "K/Pa"});
X("m_landau_phase_trans_props", {"degC", "K", "degC"}, {"J/(mol*K)", "cal/(mol*K)", "kJ/(mol*K)"}, {"J/bar", "cm^3", "kJ/bar"});
X("solute_holland_powell98_coeff", {"kJ/(mol*K^2)", "J/(mol*K^2)", "kJ/(mol*K^2)"});
X("logKr", {"1", "1", "1"});
X("drsm_heat_capacity_p", {"J/(mol*K)", "cal/(mol*K)", "kJ/(K*mol)"});
X("drsm_gibbs_energy", {"J/mol", "cal/mol", "kJ/mol"});
X("drsm_enthalpy", {"J/mol", "cal/mol", "kJ/mol"});
X("drsm_entropy", {"J/(mol*K)", "cal/(mol*K)", "kJ/(K*mol)"});
X("drsm_volume", {"J/bar", "cm^3", "kJ/bar"});
X("logk_ft_coeffs", {"1", "1", "1"}, {"1/K", "1/K", "1/K"}, {"K", "K", "K"}, {"1", "", "1"}, {"K^2", "K^2", ""}, {"1/K^2", "1/K^2", "1/K^2"}, {"K^0.5", "K^0.5", "K^0.5"});
X("dr_heat_capacity_ft_coeffs", {"J/(mol*K)", "cal/(mol*K)", "kJ/(mol*K)"}, {"J/(mol*K^2)", "cal/(mol*K^2)", "J/(mol*K^2)"}, {"(J*K)/mol", "(cal*K)/mol", "(kJ*K)/mol"}, {"J/(mol*K^0.5)", "cal/(mol*K^0.5)", "J/(mol*K^0.5)"}, {"J/(mol*K^3)", "cal/(mol*K^3)", "kJ/(mol*K^3)"});
X("dr_volume_fpt_coeffs", {"1/K", "1/K", "1/K"}, {"1/K^2", "1/K^2", "1/K^2"}, {"1/K^3", "1/K^3", "1/K^3"}, {"1/bar", "1/kbar", "1/Pa"}, {"1/bar^2", "1/(kbar*kbar)", "1/bar^2"});
X("dr_ryzhenko_coeffs", {"1", "", "1"}, {"1", "1", ""}, {"1", "1", "1"});
X("dr_marshall_franck_coeffs", {"1", "1", "1"}, {"K", "K", "K"}, {"K^2", "K^2", "K^2"}, {"K^3", "K^3", "K^3"}, {"1", "1", ""}, {"K", "K", "K"}, {"K^2", "K^2", "K^2"});
X("dr_dolejs_manning10_coeffs", {"kJ/mol", "J/mol", "cal/mol"}, {"J/(mol*K)", "cal/(mol*K)", "kJ/(mol*K)"}, {"J/(mol*K)", "J/(mol*K)", "cal/(mol*K)"}, {"J/(mol*K^2)", "cal/(mol*K^2)", "kJ/(mol*K^2)"}, {"J/(mol*K)", "cal/(mol*K)", "kJ/(mol*K)"});
