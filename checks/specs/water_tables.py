"""Published coefficients of the equations of state of water: IAPWS-95 (Wagner and Pruss 2002, table 6.1 and 6.2) and Haar-Gallagher-Kell (1984)."""
W_no = ("0", "-8.32044648201", "6.6832105268", "3.00632", "0.012436", "0.97315", "1.27950", "0.96956", "0.24873")
W_gammao = ("1.28728967", "3.53734222", "7.74073708", "9.24437796", "27.5075105")
W_c = ("0", "0", "0", "0", "0", "0", "0", "0", "1", "1", "1", "1", "1", "1", "1", "1", "1", "1", "1", "1", "1", "1", "1", "2", "2", "2", "2", "2", "2", "2", "2", "2", "2", "2", "2", "2", "2", "2", "2", "2", "2", "2", "2", "3", "3", "3", "3", "4", "6", "6", "6", "6", "0", "0", "0")
W_d = ("0", "1", "1", "1", "2", "2", "3", "4", "1", "1", "1", "2", "2", "3", "4", "4", "5", "7", "9", "10", "11", "13", "15", "1", "2", "2", "2", "3", "4", "4", "4", "5", "6", "6", "7", "9", "9", "9", "9", "9", "10", "10", "12", "3", "4", "4", "5", "14", "3", "6", "6", "6", "3", "3", "3")
W_t = ("0", "-0.5", "0.875", "1", "0.5", "0.75", "0.375", "1", "4", "6", "12", "1", "5", "4", "2", "13", "9", "3", "4", "11", "4", "13", "1", "7", "1", "9", "10", "10", "3", "7", "10", "10", "6", "10", "10", "1", "2", "3", "4", "8", "6", "9", "8", "16", "22", "23", "23", "10", "50", "44", "46", "50", "0", "1", "4")
W_n = ("0", "0.12533547935523e-01", "0.78957634722828e+01", "-0.87803203303561e+01", "0.31802509345418", "-0.26145533859358", "-0.78199751687981e-02", "0.88089493102134e-02", "-0.66856572307965", "0.20433810950965", "-0.66212605039687e-04", "-0.19232721156002", "-0.25709043003438", "0.16074868486251", "-0.40092828925807e-01", "0.39343422603254e-06", "-0.75941377088144e-05", "0.56250979351888e-03", "-0.15608652257135e-04", "0.11537996422951e-08", "0.36582165144204e-06", "-0.13251180074668e-11", "-0.62639586912454e-09", "-0.10793600908932", "0.17611491008752e-01", "0.22132295167546", "-0.40247669763528", "0.58083399985759", "0.49969146990806e-02", "-0.31358700712549e-01", "-0.74315929710341", "0.47807329915480", "0.20527940895948e-01", "-0.13636435110343", "0.14180634400617e-01", "0.83326504880713e-02", "-0.29052336009585e-01", "0.38615085574206e-01", "-0.20393486513704e-01", "-0.16554050063734e-02", "0.19955571979541e-02", "0.15870308324157e-03", "-0.16388568342530e-04", "0.43613615723811e-01", "0.34994005463765e-01", "-0.76788197844621e-01", "0.22446277332006e-01", "-0.62689710414685e-04", "-0.55711118565645e-09", "-0.19905718354408", "0.31777497330738", "-0.11841182425981", "-0.31306260323435e+02", "0.31546140237781e+02", "-0.25213154341695e+04", "-0.14874640856724", "0.31806110878444")
W_alpha = ("20", "20", "20")
W_beta = ("150", "150", "250")
W_gamma = ("1.21", "1.21", "1.25")
W_epsilon = ("1", "1", "1")
W_a = ("3.5", "3.5")
W_b = ("0.85", "0.95")
W_A = ("0.32", "0.32")
W_B = ("0.2", "0.2")
W_C = ("28", "32")
W_F = ("700", "800")
W_E = ("0.3", "0.3")
H_A0 = ("-0.130840393653E+2", "-0.857020420940E+2", "0.765192919131E-2", "-0.620600116069E+0", "-0.106924329402E+2", "-0.280671377296E+1", "0.119843634845E+3", "-0.823907389256E+2", "0.555864146443E+2", "-0.310698122980E+2", "0.136200239305E+2", "-0.457116129409E+1", "0.115382128188E+1", "-0.214242224683E+0", "0.282800597384E-1", "-0.250384152737E-2", "0.132952679669E-3", "-0.319277411208E-5")
H_A1 = ("0.15383053E+1", "-0.81048367E+0", "-0.68305748E+1", "0.00000000E+0", "0.86756271E+0")
H_yc = ("0.59402227E-1", "-0.28128238E-1", "0.56826674E-3", "-0.27987451E-3")
H_ki = ("1", "1", "1", "1", "2", "2", "2", "2", "3", "3", "3", "3", "4", "4", "4", "4", "5", "5", "5", "5", "6", "6", "6", "6", "7", "7", "7", "7", "9", "9", "9", "9", "3", "3", "1", "5")
H_li = ("1", "2", "4", "6", "1", "2", "4", "6", "1", "2", "4", "6", "1", "2", "4", "6", "1", "2", "4", "6", "1", "2", "4", "6", "1", "2", "4", "6", "1", "2", "4", "6", "0", "3", "3", "3")
H_A3 = ("-0.76221190138079E+1", "0.32661493707555E+2", "0.11305763156821E+2", "-0.10015404767712E+1", "0.12830064355028E+3", "-0.28371416789846E+3", "0.24256279839182E+3", "-0.99357645626725E+2", "-0.12275453013171E+4", "0.23077622506234E+4", "-0.16352219929859E+4", "0.58436648297764E+3", "0.42365441415641E+4", "-0.78027526961828E+4", "0.38855645739589E+4", "-0.91225112529381E+3", "-0.90143895703666E+4", "0.15196214817734E+5", "-0.39616651358508E+4", "-0.72027511617558E+3", "0.11147126705990E+5", "-0.17412065252210E+5", "0.99918281207782E+3", "0.33504807153854E+4", "-0.64752644922631E+4", "0.98323730907847E+4", "0.83877854108422E+3", "-0.27919349903103E+4", "0.11112410081192E+4", "-0.17287587261807E+4", "-0.36233262795423E+3", "0.61139429010144E+3", "0.32968064728562E+2", "0.10411239605066E+3", "-0.38225874712590E+2", "-0.20307478607599E+3")
H_mi = ("2", "2", "2", "4")
H_ni = ("0", "2", "0", "0")
H_alpha = ("34", "40", "30", "1050")
H_beta = ("20000", "20000", "40000", "25")
H_ri = ("0.10038928E+1", "0.10038928E+1", "0.10038928E+1", "0.48778492E+1")
H_ti = ("0.98876821E+0", "0.98876821E+0", "0.99124013E+0", "0.41713659E+0")
H_A4 = ("-0.32329494E-2", "-0.24139355E-1", "0.79027651E-3", "-0.13362857E+1")
