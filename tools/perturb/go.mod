module verif/perturb

go 1.23
