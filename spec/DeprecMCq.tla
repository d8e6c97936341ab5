---- MODULE DeprecMCq ----
EXTENDS DeprecMC
MCMods == Modules
====
