------------------------------ MODULE Columns --------------------------------
(* What the formatted catalogue of each supported simulation contains: for    *)
(* every column the raw field (and component) it comes from, the conversion,  *)
(* the power of h and the unit it is labelled with.                           *)
(*   id    as it is                 wrap   folded into the periodic box       *)
(*   kilo  from kpc/h to Mpc/h      h      from Msun to Msun/h                *)
(*   e10   from 10^10 Msun/h        mdot   from 10^10 Msun/h / (0.978 Gyr/h)  *)
(*   mass, massh, mass10: the halo mass, as it is, from Msun, from 10^10      *)
EXTENDS Integers, Sequences
C(n, raw, k, rule, hd, unit) == [n |-> n, raw |-> raw, k |-> k, rule |-> rule, hd |-> hd, unit |-> unit]
BasicAscii ==
  <<C("pos_x", "x", 1, "id", -1, "Mpc/h"),
    C("pos_y", "y", 1, "id", -1, "Mpc/h"),
    C("pos_z", "z", 1, "id", -1, "Mpc/h"),
    C("v_x", "vx", 1, "id", 0, "km/s"),
    C("v_y", "vy", 1, "id", 0, "km/s"),
    C("v_z", "vz", 1, "id", 0, "km/s"),
    C("mass", "m", 1, "mass", -1, "Msun/h")>>
BasicBinary ==
  <<C("pos_x", "pos", 1, "wrap", -1, "Mpc/h"),
    C("pos_y", "pos", 2, "wrap", -1, "Mpc/h"),
    C("pos_z", "pos", 3, "wrap", -1, "Mpc/h"),
    C("v_x", "pos", 4, "id", 0, "km/s"),
    C("v_y", "pos", 5, "id", 0, "km/s"),
    C("v_z", "pos", 6, "id", 0, "km/s"),
    C("mass", "m", 1, "mass", -1, "Msun/h")>>
OtherUM ==
  <<C("halo_id", "id", 1, "id", 0, "None"),
    C("descendent_id", "descid", 1, "id", 0, "None"),
    C("parent_id", "upid", 1, "id", 0, "None"),
    C("vmax", "v", 1, "id", 0, "km/s"),
    C("mass_peak", "mp", 1, "id", -1, "Msun/h"),
    C("vmax_peak", "vmp", 1, "id", 0, "km/s"),
    C("r", "r", 1, "kilo", -1, "Mpc/h"),
    C("Rank1", "rank1", 1, "id", 0, "None"),
    C("m_stars", "sm", 1, "h", -1, "Msun/h"),
    C("icl", "icl", 1, "h", -1, "Msun/h"),
    C("sfr", "sfr", 1, "id", 0, "Msun/yr"),
    C("m_stars_obs", "obs_sm", 1, "h", -1, "Msun/h"),
    C("sfr_obs", "obs_sfr", 1, "id", 0, "Msun/yr"),
    C("phot_uv_obs", "obs_uv", 1, "id", 0, "mag")>>
OtherAscii ==
  <<C("ssfr_obs", "obs_ssfr", 1, "id", 0, "?"),
    C("stellar_to_halo_mass_ratio", "smhm", 1, "id", 0, "None")>>
OtherBinary ==
  <<C("uv_attenuation", "a_uv", 1, "id", 0, "mag")>>
BasicUchuu ==
  <<C("pos_x", "x", 1, "id", -1, "Mpc/h"),
    C("pos_y", "y", 1, "id", -1, "Mpc/h"),
    C("pos_z", "z", 1, "id", -1, "Mpc/h"),
    C("v_x", "vx", 1, "id", 0, "km/s"),
    C("v_y", "vy", 1, "id", 0, "km/s"),
    C("v_z", "vz", 1, "id", 0, "km/s"),
    C("mass", "Mvir", 1, "mass", -1, "Msun/h")>>
OtherUchuu ==
  <<C("halo_id", "id", 1, "id", 0, "None"),
    C("descendent_id", "desc_id", 1, "id", 0, "None"),
    C("parent_id", "upid", 1, "id", 0, "None"),
    C("vmax", "vmax", 1, "id", 0, "km/s"),
    C("mass_peak", "Mpeak", 1, "id", -1, "Msun/h"),
    C("vmax_peak", "Vmax_Mpeak", 1, "id", 0, "km/s"),
    C("m_stars", "sm", 1, "h", -1, "Msun/h"),
    C("icl", "icl", 1, "h", -1, "Msun/h"),
    C("sfr", "sfr", 1, "id", 0, "Msun/yr"),
    C("m_stars_obs", "obs_sm", 1, "h", -1, "Msun/h"),
    C("sfr_obs", "obs_sfr", 1, "id", 0, "Msun/yr"),
    C("phot_uv_obs", "obs_uv", 1, "id", 0, "mag"),
    C("uv_attenuation", "A_UV", 1, "id", 0, "mag")>>
BasicIllustris ==
  <<C("pos_x", "SubhaloPos", 1, "kilo", -1, "Mpc/h"),
    C("pos_y", "SubhaloPos", 2, "kilo", -1, "Mpc/h"),
    C("pos_z", "SubhaloPos", 3, "kilo", -1, "Mpc/h"),
    C("r_hm", "SubhaloHalfmassRad", 1, "kilo", -1, "Mpc/h"),
    C("mass", "SubhaloMass", 1, "mass10", -1, "Msun/h"),
    C("v_x", "SubhaloVel", 1, "id", 0, "km/s"),
    C("v_y", "SubhaloVel", 2, "id", 0, "km/s"),
    C("v_z", "SubhaloVel", 3, "id", 0, "km/s")>>
BasicFlag ==
  <<C("flag", "SubhaloFlag", 1, "id", 0, "none")>>
DarkIllustris ==
  <<C("cm_x", "SubhaloCM", 1, "kilo", -1, "Mpc/h"),
    C("cm_y", "SubhaloCM", 2, "kilo", -1, "Mpc/h"),
    C("cm_z", "SubhaloCM", 3, "kilo", -1, "Mpc/h"),
    C("mass_maxr", "SubhaloMassInMaxRad", 1, "e10", -1, "Msun/h"),
    C("spin_x", "SubhaloSpin", 1, "kilo", -1, "Mpc/h km/s"),
    C("spin_y", "SubhaloSpin", 2, "kilo", -1, "Mpc/h km/s"),
    C("spin_z", "SubhaloSpin", 3, "kilo", -1, "Mpc/h km/s"),
    C("vdisp", "SubhaloVelDisp", 1, "id", 0, "km/s"),
    C("vmax", "SubhaloVmax", 1, "id", 0, "km/s"),
    C("r_vmax", "SubhaloVmaxRad", 1, "kilo", -1, "Mpc/h")>>
MatterIllustris ==
  <<C("bhmass", "SubhaloBHMass", 1, "e10", -1, "Msun/h"),
    C("bhmdot", "SubhaloBHMdot", 1, "mdot", 0, "Msun/h / (Gyr/h)"),
    C("met", "SubhaloGasMetallicity", 1, "id", 0, "None"),
    C("met_hr", "SubhaloGasMetallicityHalfRad", 1, "id", 0, "None"),
    C("met_maxr", "SubhaloGasMetallicityMaxRad", 1, "id", 0, "None"),
    C("met_stellar", "SubhaloStarMetallicity", 1, "id", 0, "None"),
    C("met_stellar_hr", "SubhaloStarMetallicityHalfRad", 1, "id", 0, "None"),
    C("met_stellar_maxr", "SubhaloStarMetallicityMaxRad", 1, "id", 0, "None"),
    C("sfr", "SubhaloSFR", 1, "id", 0, "Msun/yr"),
    C("sfr_hr", "SubhaloSFRinHalfRad", 1, "id", 0, "Msun/yr"),
    C("sfr_maxr", "SubhaloSFRinMaxRad", 1, "id", 0, "Msun/yr"),
    C("sfr_2hr", "SubhaloSFRinRad", 1, "id", 0, "Msun/yr"),
    C("mass_hr", "SubhaloMassInHalfRad", 1, "e10", -1, "Msun/h"),
    C("mass_2hr", "SubhaloMassInRad", 1, "e10", -1, "Msun/h"),
    C("m_gas", "SubhaloMassType", 1, "e10", -1, "Msun/h"),
    C("m_dm", "SubhaloMassType", 2, "e10", -1, "Msun/h"),
    C("m_tracers", "SubhaloMassType", 4, "e10", -1, "Msun/h"),
    C("m_stars_wind", "SubhaloMassType", 5, "e10", -1, "Msun/h"),
    C("m_bh", "SubhaloMassType", 6, "e10", -1, "Msun/h"),
    C("m_gas_hr", "SubhaloMassInHalfRadType", 1, "e10", -1, "Msun/h"),
    C("m_dm_hr", "SubhaloMassInHalfRadType", 2, "e10", -1, "Msun/h"),
    C("m_tracers_hr", "SubhaloMassInHalfRadType", 4, "e10", -1, "Msun/h"),
    C("m_stars_wind_hr", "SubhaloMassInHalfRadType", 5, "e10", -1, "Msun/h"),
    C("m_bh_hr", "SubhaloMassInHalfRadType", 6, "e10", -1, "Msun/h"),
    C("m_gas_maxr", "SubhaloMassInMaxRadType", 1, "e10", -1, "Msun/h"),
    C("m_dm_maxr", "SubhaloMassInMaxRadType", 2, "e10", -1, "Msun/h"),
    C("m_tracers_maxr", "SubhaloMassInMaxRadType", 4, "e10", -1, "Msun/h"),
    C("m_stars_wind_maxr", "SubhaloMassInMaxRadType", 5, "e10", -1, "Msun/h"),
    C("m_bh_maxr", "SubhaloMassInMaxRadType", 6, "e10", -1, "Msun/h"),
    C("m_gas_2hr", "SubhaloMassInRadType", 1, "e10", -1, "Msun/h"),
    C("m_dm_2hr", "SubhaloMassInRadType", 2, "e10", -1, "Msun/h"),
    C("m_tracers_2hr", "SubhaloMassInRadType", 4, "e10", -1, "Msun/h"),
    C("m_stars_wind_2hr", "SubhaloMassInRadType", 5, "e10", -1, "Msun/h"),
    C("m_bh_2hr", "SubhaloMassInRadType", 6, "e10", -1, "Msun/h"),
    C("phot_U", "SubhaloStellarPhotometrics", 1, "id", 0, "mag"),
    C("phot_B", "SubhaloStellarPhotometrics", 2, "id", 0, "mag"),
    C("phot_V", "SubhaloStellarPhotometrics", 3, "id", 0, "mag"),
    C("phot_K", "SubhaloStellarPhotometrics", 4, "id", 0, "mag"),
    C("phot_g", "SubhaloStellarPhotometrics", 5, "id", 0, "mag"),
    C("phot_r", "SubhaloStellarPhotometrics", 6, "id", 0, "mag"),
    C("phot_i", "SubhaloStellarPhotometrics", 7, "id", 0, "mag"),
    C("phot_z", "SubhaloStellarPhotometrics", 8, "id", 0, "mag")>>
MatterTNG ==
  <<C("metH", "SubhaloGasMetalFractions", 1, "id", 0, "None"),
    C("metHe", "SubhaloGasMetalFractions", 2, "id", 0, "None"),
    C("metC", "SubhaloGasMetalFractions", 3, "id", 0, "None"),
    C("metN", "SubhaloGasMetalFractions", 4, "id", 0, "None"),
    C("metO", "SubhaloGasMetalFractions", 5, "id", 0, "None"),
    C("metNe", "SubhaloGasMetalFractions", 6, "id", 0, "None"),
    C("metMg", "SubhaloGasMetalFractions", 7, "id", 0, "None"),
    C("metSi", "SubhaloGasMetalFractions", 8, "id", 0, "None"),
    C("metFe", "SubhaloGasMetalFractions", 9, "id", 0, "None"),
    C("metOther", "SubhaloGasMetalFractions", 10, "id", 0, "None"),
    C("metH_hr", "SubhaloGasMetalFractionsHalfRad", 1, "id", 0, "None"),
    C("metHe_hr", "SubhaloGasMetalFractionsHalfRad", 2, "id", 0, "None"),
    C("metC_hr", "SubhaloGasMetalFractionsHalfRad", 3, "id", 0, "None"),
    C("metN_hr", "SubhaloGasMetalFractionsHalfRad", 4, "id", 0, "None"),
    C("metO_hr", "SubhaloGasMetalFractionsHalfRad", 5, "id", 0, "None"),
    C("metNe_hr", "SubhaloGasMetalFractionsHalfRad", 6, "id", 0, "None"),
    C("metMg_hr", "SubhaloGasMetalFractionsHalfRad", 7, "id", 0, "None"),
    C("metSi_hr", "SubhaloGasMetalFractionsHalfRad", 8, "id", 0, "None"),
    C("metFe_hr", "SubhaloGasMetalFractionsHalfRad", 9, "id", 0, "None"),
    C("metOther_hr", "SubhaloGasMetalFractionsHalfRad", 10, "id", 0, "None"),
    C("metH_maxr", "SubhaloGasMetalFractionsMaxRad", 1, "id", 0, "None"),
    C("metHe_maxr", "SubhaloGasMetalFractionsMaxRad", 2, "id", 0, "None"),
    C("metC_maxr", "SubhaloGasMetalFractionsMaxRad", 3, "id", 0, "None"),
    C("metN_maxr", "SubhaloGasMetalFractionsMaxRad", 4, "id", 0, "None"),
    C("metO_maxr", "SubhaloGasMetalFractionsMaxRad", 5, "id", 0, "None"),
    C("metNe_maxr", "SubhaloGasMetalFractionsMaxRad", 6, "id", 0, "None"),
    C("metMg_maxr", "SubhaloGasMetalFractionsMaxRad", 7, "id", 0, "None"),
    C("metSi_maxr", "SubhaloGasMetalFractionsMaxRad", 8, "id", 0, "None"),
    C("metFe_maxr", "SubhaloGasMetalFractionsMaxRad", 9, "id", 0, "None"),
    C("metOther_maxr", "SubhaloGasMetalFractionsMaxRad", 10, "id", 0, "None")>>

(* the Bolshoi catalogues come in Msun *)
InMsun(q) == [i \in 1..Len(q) |-> CASE q[i].n = "mass" -> [q[i] EXCEPT !.rule = "massh"]
                                     [] q[i].n = "mass_peak" -> [q[i] EXCEPT !.rule = "h"]
                                     [] OTHER -> q[i]]
Basic(kind) == CASE kind = "testbox" -> BasicAscii
                 [] kind = "bolshoi" -> InMsun(BasicAscii)
                 [] kind = "binary" -> BasicBinary
                 [] kind = "uchuu" -> BasicUchuu
                 [] kind \in {"illustris", "dark", "tngdark"} -> BasicIllustris
                 [] kind = "tng" -> BasicIllustris \o BasicFlag
Other(kind) == CASE kind = "testbox" -> OtherUM \o OtherAscii
                 [] kind = "bolshoi" -> InMsun(OtherUM \o OtherAscii)
                 [] kind = "binary" -> OtherUM \o OtherBinary
                 [] kind = "uchuu" -> OtherUchuu
                 [] kind \in {"dark", "tngdark"} -> DarkIllustris
                 [] kind = "illustris" -> DarkIllustris \o MatterIllustris
                 [] kind = "tng" -> DarkIllustris \o MatterIllustris \o MatterTNG
==============================================================================
