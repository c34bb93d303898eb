----------------------------- MODULE DefaultsGen ------------------------------
EXTENDS Defaults, Json, CSV, IOUtils, TLC

Src == [paths |-> "1", vshape |-> "()", dtype |-> "float"]
Corr == [corr |-> "none", rho |-> "none"]
Poi == [paths |-> "1", vshape |-> "()", dtype |-> "int", lam |-> "1"]
CPoi == Src @@ [ptype |-> "int", lam |-> "1", y |-> "uniform", dn |-> "poisson"]
Mem == [rtol |-> "max", t0 |-> "0", z0 |-> "0"]
Two(d) == [d EXCEPT !.paths = "2"]
Base == [paths |-> "1", xshape |-> "()", wshape |-> "()", dtype |-> "float",
        steps |-> "none", i0 |-> "0", getinfo |-> "yes"]
Meth == [method |-> "euler"]
\* an integrated process
Run == [paths |-> "1", vshape |-> "()", dtype |-> "float",
        steps |-> "none", i0 |-> "0", getinfo |-> "yes", method |-> "euler"]
DW == [dw |-> "wiener"] @@ Corr
DN == [dn |-> "poisson", ptype |-> "int", lam |-> "1"]

Documented(f) ==
  CASE f = "source" -> Src
    [] f = "wiener_source" -> Src @@ Corr
    [] f = "poisson_source" -> Poi
    [] f = "cpoisson_source" -> CPoi
    [] f = "odd_wiener_source" -> Two(Src @@ Corr)
    [] f = "even_poisson_source" -> Two(Src @@ [lam |-> "1"])
    [] f = "even_cpoisson_source" -> Two(CPoi)
    [] f = "true_source" -> Src @@ Mem
    [] f = "true_wiener_source" -> Src @@ Corr @@ Mem
    [] f = "true_poisson_source" -> Poi @@ Mem
    [] f = "true_cpoisson_source" -> [CPoi EXCEPT !.dn = "true_poisson"] @@ Mem
    [] f = "norm_rv" -> [a |-> "0", b |-> "1"]
    [] f = "uniform_rv" -> [a |-> "0", b |-> "1"]
    [] f = "exp_rv" -> [a |-> "1"]
    [] f = "double_exp_rv" -> [a |-> "1", b |-> "1", pa |-> "1/2"]
    [] f = "paths_generator" -> Base
    [] f = "integrator" -> Base @@ Meth
    [] f = "SDE" -> Run @@ [x0 |-> "1"] @@ DW
    [] f = "SDE_dn" -> Run @@ [x0 |-> "1"] @@ DN
    [] f = "SDE_dj" -> Run @@ [x0 |-> "1", dj |-> "cpoisson", y |-> "uniform"] @@ DN
    [] f = "SDEs" -> Run @@ [x0 |-> "1"] @@ DW
    [] f = "wiener_process" -> Run @@ DW @@ [x0 |-> "0", mu |-> "0", sigma |-> "1"]
    [] f = "lognorm_process" -> Run @@ DW @@ [x0 |-> "1", mu |-> "0", sigma |-> "1"]
    [] f = "ornstein_uhlenbeck_process" ->
         Run @@ DW @@ [x0 |-> "0", theta |-> "0", k |-> "1", sigma |-> "1"]
    [] f = "hull_white_1factor_process" ->
         Run @@ DW @@ [x0 |-> "0", theta |-> "0", k |-> "1", sigma |-> "1"]
    [] f = "hull_white_process" ->
         Run @@ DW @@ [x0 |-> "0", theta |-> "0", k |-> "1", sigma |-> "1", factors |-> "1"]
    [] f = "cox_ingersoll_ross_process" ->
         Run @@ DW @@ [x0 |-> "1", theta |-> "1", k |-> "1", xi |-> "1"]
    [] f \in {"full_heston_process", "heston_process"} ->
         Run @@ DW @@ [x0 |-> "1", mu |-> "0", sigma |-> "1", y0 |-> "1",
                       theta |-> "1", k |-> "1", xi |-> "1"]
    [] f = "jumpdiff_process" ->
         Run @@ DW @@ DN @@ [x0 |-> "1", mu |-> "0", sigma |-> "1", dj |-> "cpoisson",
                             y |-> "uniform"]
    [] f = "merton_jumpdiff_process" ->
         Run @@ DW @@ DN @@ [x0 |-> "1", mu |-> "0", sigma |-> "1", dj |-> "cpoisson",
                             a |-> "0", b |-> "1"]
    [] f = "kou_jumpdiff_process" ->
         Run @@ DW @@ DN @@ [x0 |-> "1", mu |-> "0", sigma |-> "1", dj |-> "cpoisson",
                             a |-> "1/2", b |-> "1/2", pa |-> "1/2"]
    [] f = "process" -> [t |-> "0", dtype |-> "asis"]
    [] f = "piecewise" -> [mode |-> "mid", dtype |-> "asis"]
    [] f = "interp" -> [kind |-> "linear"]
    [] f = "tdiff" -> [dt_exp |-> "0", fwd |-> "yes"]
    [] f \in {"pvar", "pstd", "vvar", "vstd", "tvar", "tstd"} ->
         [ddof |-> "0", out |-> "none", dtype |-> "float"]
    [] f = "montecarlo" -> [axis |-> "-1", bins |-> "100", range |-> "none", use |-> "all",
                            dtype |-> "float", ctype |-> "int"]
    [] f = "update" -> [axis |-> "-1"]
    [] f \in {"mcpdf", "mccdf"} -> [method |-> "gaussian_kde", bandwidth |-> "1", kind |-> "linear"]

Sources == {"source", "wiener_source", "poisson_source", "cpoisson_source",
            "odd_wiener_source", "even_poisson_source", "even_cpoisson_source",
            "true_source", "true_wiener_source", "true_poisson_source",
            "true_cpoisson_source"}
Dists == {"norm_rv", "uniform_rv", "exp_rv", "double_exp_rv"}
Engines == {"paths_generator", "integrator", "SDE", "SDE_dn", "SDE_dj", "SDEs"}
Presets == {"wiener_process", "lognorm_process", "ornstein_uhlenbeck_process",
            "hull_white_1factor_process", "hull_white_process",
            "cox_ingersoll_ross_process", "full_heston_process", "heston_process",
            "jumpdiff_process", "merton_jumpdiff_process", "kou_jumpdiff_process"}
Procs == {"process", "piecewise", "interp", "tdiff", "pvar", "pstd", "vvar", "vstd",
          "tvar", "tstd"}
Carlo == {"montecarlo", "update", "mcpdf", "mccdf"}
All == Sources \cup Dists \cup Engines \cup Presets \cup Procs \cup Carlo

Even(f) == f \in {"odd_wiener_source", "even_poisson_source", "even_cpoisson_source"}
Others(f, p) ==
  CASE p = "paths" -> IF Even(f) THEN <<"4">> ELSE <<"2", "3">>
    [] p \in {"vshape", "xshape", "wshape"} ->
         IF f \in {"full_heston_process", "heston_process"} THEN <<"(2,)">> ELSE <<"(2,)", "2">>
    [] p = "dtype" -> CASE f = "poisson_source" \/ f = "true_poisson_source" -> <<"float">>
                        [] f = "even_poisson_source" -> <<"int">>
                        [] OTHER -> <<"f4">>
    [] p = "ptype" -> <<"i4">>
    [] p = "lam" -> <<"3", "1/2">>
    [] p = "y" -> <<"norm">>
    [] p \in {"dn", "dw", "dj", "out"} -> <<>>
    [] p = "corr" -> <<"corr">>
    [] p = "rho" -> <<"1/4">>
    [] p = "rtol" -> <<"1/4">>
    [] p = "t0" -> <<"1", "-1">>
    [] p = "z0" -> <<"5">>
    [] p = "steps" -> <<"5", "list">>
    [] p = "i0" -> <<"-1", "1">>
    [] p = "getinfo" -> <<"no">>
    [] p = "method" -> IF f \in Engines \cup Presets THEN <<"twin">> ELSE <<"interp">>
    [] p = "x0" -> <<"3/2">>
    [] p = "y0" -> <<"2">>
    [] p \in {"mu", "theta"} -> <<"1/4">>
    [] p \in {"sigma", "xi"} -> <<"1/2">>
    [] p = "k" -> <<"2">>
    [] p = "factors" -> <<"2">>
    [] p = "a" -> IF f = "uniform_rv" THEN <<"1/4">> ELSE <<"1/4", "3/4">>
    [] p = "b" -> <<"1/3", "2">>
    [] p = "pa" -> <<"1/4", "1">>
    [] p = "t" -> <<"3">>
    [] p = "mode" -> <<"forward", "backward">>
    [] p = "kind" -> IF f = "interp" THEN <<"nearest", "next", "quadratic">> ELSE <<"nearest">>
    [] p = "dt_exp" -> <<"1", "1/2">>
    [] p = "fwd" -> <<"no">>
    [] p = "ddof" -> <<"1">>
    [] p = "axis" -> <<"0", "1">>
    [] p = "bins" -> <<"4", "auto">>
    [] p = "range" -> <<"pair">>
    [] p = "use" -> <<"even", "odd">>
    [] p = "ctype" -> <<"i2">>
    [] p = "bandwidth" -> <<"1/2">>

Export == second => CSVWrite("%1$s", <<ToJson([fam |-> fam, given |-> given,
                      means |-> Meaning(fam, given), doc |-> Doc(fam)])>>, IOEnv.OUT)
=============================================================================
