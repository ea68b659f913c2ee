module verifmc

go 1.24
