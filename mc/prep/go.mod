module verifprep

go 1.25
