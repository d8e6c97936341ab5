---- MODULE DistMCq ----
EXTENDS DistMC
MCParams == {
  [dist |-> "poisson", mu |-> 5, sigma |-> 10, lnmu |-> -693147, lnsigma |-> 0],
  [dist |-> "poisson", mu |-> 10, sigma |-> 10, lnmu |-> 0, lnsigma |-> 0],
  [dist |-> "poisson", mu |-> 23, sigma |-> 10, lnmu |-> 832909, lnsigma |-> 0],
  [dist |-> "poisson", mu |-> 40, sigma |-> 10, lnmu |-> 1386294, lnsigma |-> 0],
  [dist |-> "poisson", mu |-> 100, sigma |-> 10, lnmu |-> 2302585, lnsigma |-> 0],
  [dist |-> "poisson", mu |-> 7500, sigma |-> 10, lnmu |-> 6620073, lnsigma |-> 0],
  [dist |-> "gaussian", mu |-> 0, sigma |-> 10, lnmu |-> 0, lnsigma |-> 0],
  [dist |-> "gaussian", mu |-> 50, sigma |-> 10, lnmu |-> 0, lnsigma |-> 0],
  [dist |-> "gaussian", mu |-> 35, sigma |-> 5, lnmu |-> 0, lnsigma |-> -693147],
  [dist |-> "gaussian", mu |-> 105, sigma |-> 30, lnmu |-> 0, lnsigma |-> 1098612],
  [dist |-> "gaussian", mu |-> -20, sigma |-> 400, lnmu |-> 0, lnsigma |-> 3688879],
  [dist |-> "gaussian", mu |-> 80, sigma |-> 1, lnmu |-> 0, lnsigma |-> -2302585]}
MCLnFact == <<0, 693147, 1791759, 3178054, 4787492, 6579251, 8525161, 10604603, 12801827, 15104413, 17502308, 19987214, 22552164, 25191221, 27899271, 30671860, 33505073, 36395445, 39339884, 42335616>>
MCLnOf == <<0, 693147, 1098612, 1386294, 1609438, 1791759, 1945910, 2079442, 2197225, 2302585, 2397895, 2484907, 2564949, 2639057, 2708050, 2772589, 2833213, 2890372, 2944439, 2995732>>
====
