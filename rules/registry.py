REG={'P01':('c_taylor','p01'),'P02':('c_taylor','p02'),'P03':('c_taylor','p03'),'P12':('c_taylor','p12')}
REG.update({'P04':('c_sparse','p04'),'P05':('c_sparse','p05')})
REG.update({"P10":("c_record","p10"),"P11":("c_record","p11")})
REG.update({"P13":("c_dyn","p13")})
REG.update({"P06":("c_iter","p06"),"P07":("c_iter","p07")})
REG.update({"P08":("c_api","p08")})
REG.update({"P09":("c_opt","p09")})
REG.update({"P14":("c_state","p14"),"P15":("c_pattern","p15")})
REG.update({"P16":("c_store","p16")})
REG.update({"P18":("c_fun","p18")})
REG.update({"P17":("c_abs","p17")})
REG.update({"P19":("c_graph","p19")})
REG.update({"P20":("c_text","p20")})
REG.update({"P21":("c_atom","p21")})
REG.update({"P22":("c_vec","p22")})
REG.update({"P23":("c_spd","p23")})
