"""Published regressions of Wang & Stokoe (2022): per soil group and model, the
properties in order of level and the equations.  Written once over a small set
of operations so that the symbolic units and the contract runs share them.
s: mean stress in atm, e: void ratio, fc/wc/pi: decimals, cu, d50, ocr."""

ORDER = {
    "clean_sand_and_gravel": {"gmax": ["stress_mean", "void_ratio", "diam_50", "coef_unif", "fines_cont"],
                              "ggmax": ["stress_mean", "void_ratio", "coef_unif", "fines_cont"],
                              "dmin": ["stress_mean", "fines_cont", "water_cont", "void_ratio", "diam_50"],
                              "damping": ["stress_mean", "void_ratio", "fines_cont", "coef_unif"]},
    "nonplastic_silty_sand": {"gmax": ["stress_mean", "void_ratio", "water_cont"],
                              "ggmax": ["stress_mean", "void_ratio", "fines_cont"],
                              "dmin": ["stress_mean", "void_ratio", "fines_cont"],
                              "damping": ["stress_mean", "void_ratio", "fines_cont"]},
    "clayey_soil": {"gmax": ["stress_mean", "void_ratio", "ocr", "fines_cont", "plas_index"],
                    "ggmax": ["stress_mean", "void_ratio", "fines_cont", "ocr", "plas_index"],
                    "dmin": ["stress_mean", "void_ratio", "plas_index", "fines_cont"],
                    "damping": ["stress_mean", "water_cont", "plas_index", "fines_cont"]},
}


def eqs(n, exp, s, e=None, fc=None, wc=None, pi=None, cu=None, d50=None, ocr=None):
    """equations of the given inputs; n makes a number of a decimal"""
    G = "clean_sand_and_gravel"
    S = "nonplastic_silty_sand"
    C = "clayey_soil"
    return {
        (G, "gmax"): [lambda: n(108.4) * s ** n(0.51),
                      lambda: n(67.5) * e ** n(-0.86) * s ** n(0.5),
                      lambda: n(66.5) * e ** (n(-0.75) - (n(0.009) * d50) ** n(1.58)) * s ** n(0.51),
                      lambda: n(64.3) * cu ** n(-0.21) * e ** (n(-1.08) - (n(0.09) * d50) ** n(0.51)) * s ** (n(0.47) * cu ** n(0.06)),
                      lambda: n(63.9) * cu ** n(-0.21) * e ** (n(-1.12) - (n(0.09) * d50) ** n(0.54)) * s ** (n(0.48) * cu ** n(0.08) - n(1.03) * fc)],
        (S, "gmax"): [lambda: n(89.1) * s ** n(0.51),
                      lambda: n(59.2) * e ** n(-0.74) * s ** n(0.51),
                      lambda: n(84.8) * e ** n(-0.53) * (1 - n(1.32) * wc) * s ** n(0.52)],
        (C, "gmax"): [lambda: n(77.2) * s ** n(0.48),
                      lambda: n(52.3) * e ** n(-1.08) * s ** n(0.4),
                      lambda: n(18.9) * e ** n(-0.97) * (n(4.5) + ocr) ** n(0.54) * s ** n(0.48),
                      lambda: 34 * e ** n(-0.8) * (n(3.13) + ocr) ** n(0.53) * (1 - n(0.46) * fc) * s ** n(0.51),
                      lambda: n(232.9) * (1 + n(0.96) * e) ** n(-2.42) * (n(1.92) + ocr) ** (n(0.27) + n(0.46) * pi) * (1 - n(0.44) * fc) * s ** n(0.49)],
        # (curvature a, exponent b, reference strain in percent)
        (G, "ggmax"): [lambda: (n(0.729), n(0.985), n(0.068) * s ** n(0.4)),
                       lambda: (n(0.804), n(0.882), (n(0.13) * e ** n(0.545) - n(0.043)) * s ** n(0.45)),
                       lambda: (n(0.834), n(0.839), (n(0.05) * e ** (n(0.1) * cu) + n(0.011)) * s ** n(0.45)),
                       lambda: (n(0.834) + fc, n(0.844) - n(1.897) * fc, (n(0.048) * e ** (n(0.089) * cu) + n(0.008)) * s ** n(0.4))],
        (S, "ggmax"): [lambda: (n(1.04), n(0.438) - n(0.007) * s, n(0.011) * s ** n(0.318)),
                       lambda: (n(1.139) * exp(n(0.093) * e), n(0.475) - n(0.007) * s, (n(0.029) * e - n(0.003)) * s ** n(0.335)),
                       lambda: ((n(1.495) * e + n(3.079) * fc) ** n(0.121), n(0.486) - n(0.006) * s, (n(0.031) * e - n(0.003)) * s ** (n(0.405) - n(0.193) * fc))],
        (C, "ggmax"): [lambda: (n(1.364), n(0.28), n(0.015) * s ** n(0.205)),
                       lambda: (n(1.185), n(0.475), n(0.035) * e * s ** n(0.276)),
                       lambda: (n(0.966) + n(0.378) * fc, n(0.596) - n(0.207) * fc, (n(0.031) * e + n(0.004) * fc) * s ** n(0.25)),
                       lambda: (n(0.972) + n(0.419) * fc, n(0.571) - n(0.2) * fc, (n(0.025) * e + n(0.0015) * fc) * (s + n(0.375) * ocr) ** n(0.358)),
                       lambda: (n(0.896) + n(0.412) * fc + n(0.534) * pi, n(0.586) - n(0.098) * e - n(0.135) * fc,
                                (n(0.02) * e + n(0.004) * fc) * (s + n(0.42) * ocr) ** (n(0.447) - n(0.27) * pi))],
        # percent
        (G, "dmin"): [lambda: n(0.77) * s ** n(-0.03),
                      lambda: n(0.55) * (1 + n(29.03) * fc) * s ** n(-0.13),
                      lambda: n(0.64) * (n(0.26) - wc) ** n(0.11) * (1 + n(32.8) * fc) * s ** n(-0.12),
                      lambda: n(0.55) * (1 - wc) ** (n(-12.49) + n(19.45) * e) * (1 + n(23.44) * fc) * s ** n(-0.14),
                      lambda: n(0.6) * (n(0.99) + wc) ** (n(7.45) - n(15.23) * e + n(4.29) * d50) * (1 + n(21.17) * fc) * s ** n(-0.14)],
        (S, "dmin"): [lambda: n(1.47) * s ** n(-0.2),
                      lambda: n(39.11) * (n(0.44) * e) ** (n(4.32) * e) * s ** n(-0.19),
                      lambda: n(52.16) * (n(0.41) * e) ** (n(0.81) * fc + n(5.2) * e) * (1 + n(5.35) * fc) * s ** n(-0.19)],
        (C, "dmin"): [lambda: n(2.55) * s ** n(-0.11),
                      lambda: n(7.62) * n(13.48) ** (-e) * s ** n(-0.29) + n(0.72) ** (-e),
                      lambda: n(7.29) * n(8.0) ** (-e - n(3.31) * pi) * (1 + 148 * pi ** n(1.95)) * s ** n(-0.2) + (n(0.5) * pi) ** (n(2.54) - n(1.8) * e),
                      lambda: n(4.86) * (n(1.99) + fc) ** (n(-1.91) * e - n(6.5) * pi) * (1 + n(106.75) * pi ** n(1.64)) * s ** n(-0.19) + (n(0.46) * pi) ** (n(1.73) - n(1.34) * e)],
        # (exponent c, upper damping in percent, reference strain in percent)
        (G, "damping"): [lambda: (n(0.93), n(15.64), n(0.09) * s ** n(0.32)),
                         lambda: (n(1.08) * exp(n(0.62) - n(0.73) * e), n(16.39), n(0.09) * s ** n(0.39)),
                         lambda: (n(1.02) * exp(n(0.56) - n(0.72) * e), n(21.17), n(0.13) * (s + n(17.94) * fc) ** (n(0.45) - fc)),
                         lambda: (n(0.93) * exp(n(0.34) - n(0.8) * e), n(18.13), n(0.13) * cu ** n(-0.31) * (s + n(22.04) * fc) ** (n(0.47) - fc))],
        (S, "damping"): [lambda: (n(1.187), n(13.125), n(0.045) * s ** n(0.293)),
                         lambda: (n(1.38) * exp(n(0.25) * e), n(12.09), n(0.0066) * (s + n(5.79) * e) ** n(1.01)),
                         lambda: (n(1.39) * exp(n(0.27) * e), n(12.13), n(0.0025) * (s + n(5.73) * e + n(9.17) * fc) ** (n(1.47) - n(0.52) * fc))],
        (C, "damping"): [lambda: (n(1.12), n(19.47), n(0.11) * s ** n(0.23)),
                         lambda: (n(1.36), n(15.16), n(0.29) * (n(0.017) * s + wc) ** (n(1.15) + wc)),
                         lambda: (n(1.48) ** (n(0.53) + pi), n(15.61), n(0.07) * (n(0.06) * s + n(2.69) * wc) ** (n(1.06) + wc - pi)),
                         lambda: ((n(1.91) * fc) ** (n(1.62) * pi), n(21.7), n(0.11) * (n(0.12) * s + n(5.29) * wc - fc) ** (n(1.45) - pi + wc - n(1.09) * fc))],
    }


SHORT = {"stress_mean": "s", "void_ratio": "e", "fines_cont": "fc", "water_cont": "wc", "plas_index": "pi", "coef_unif": "cu", "diam_50": "d50", "ocr": "ocr"}
PERCENT = ("fines_cont", "water_cont", "plas_index")
