----------------------------- MODULE SettingsLib -----------------------------
(* Which settings a call of a metric is computed with. Every setting has a    *)
(* documented default (number 0) and alternatives (1, 2, ...). A call gives   *)
(* some of them: pairs of a name and the number of a value.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Names(m) ==
  CASE m = "MSSSIM" -> {"kernel_size", "kernel_sigma", "scale_weights", "k1", "k2", "reduction"}
    [] m = "FSIM" -> {"scales", "orientations", "min_length", "mult", "sigma_f", "delta_theta", "k", "reduction"}
    [] m = "VIFp" -> {"sigma_n_sq", "reduction"}
    [] m = "VSI" -> {"c1", "c2", "c3", "alpha", "beta", "omega_0", "sigma_f", "sigma_d", "sigma_c", "reduction"}
    [] m = "MAD" -> {"block_size", "block_overlap", "beta_1", "beta_2", "thresh_1", "thresh_2", "account_monitor",
                     "display_function", "luminance_function", "ms_scale", "orientations_num", "scales", "csf_function"}
    [] m = "gabor" -> {"scales_num", "orientations_num", "min_wavelength", "wavelength_scaling", "bandwidth_param",
                       "d_theta_on_sigma"}
    [] OTHER -> {}
Given(g) == {g[i].n : i \in 1..Len(g)}
ValueOf(g, n) == LET i == CHOOSE i \in 1..Len(g) : g[i].n = n IN g[i].v
Asked(m, g) == [n \in Names(m) |-> IF n \in Given(g) THEN ValueOf(g, n) ELSE 0]
(* settings without influence count as default *)
Canon(m, e) ==
  LET one == "reduction" \in Names(m)                        \* a single image: nothing to reduce
      e1 == IF one THEN [e EXCEPT !["reduction"] = 0] ELSE e
  IN IF m # "MAD" THEN e1
     ELSE LET both == e["thresh_1"] # 0 /\ e["thresh_2"] # 0
              e2 == IF both THEN [e1 EXCEPT !["beta_1"] = 0, !["beta_2"] = 0]
                            ELSE [e1 EXCEPT !["thresh_1"] = 0, !["thresh_2"] = 0]
          IN IF e["account_monitor"] = 0 THEN [e2 EXCEPT !["display_function"] = 0] ELSE e2
(* a call must be refused if the monitor counts but is not described *)
Refuse(m, g) == m = "MAD" /\ Asked(m, g)["account_monitor"] # 0 /\ "display_function" \notin Given(g)
Eff(m, g) == Canon(m, Asked(m, g))
=============================================================================
