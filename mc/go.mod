module verifmc

go 1.21
