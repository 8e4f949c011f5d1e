module verif/mutate

go 1.23.0
