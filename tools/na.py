NA["C42"] = "These utilities are sequential and pure: no thread, clock, I/O, randomness that matters or second party takes part, so there is no schedule or fault for a simulation to decide; it would only be plain random input testing."
