NOTES.update({
    "C01": "Holds for all real coefficients and evaluation points on the listed polynomial shapes.",
})
