"""Why a property is not claimed."""
NA = {
    "C60": "whether formatting twice equals formatting once depends on the values the layout engine computes for each program (fits/breaks decisions over runtime widths); no static bound on these exists short of executing formatter and printer symbolically",
    "C61": "preservation of meaning quantifies over the parse of the printed text, that is over the composition of tree-sitter's generated tables with the printer; neither is in reach of a source-level static argument (the parts that are, all children emitted and assignments only rewritten where equivalent, are C32 and C34)",
    "C64": "offset arithmetic over runtime line tables and encodings; its correctness needs value reasoning over unbounded histories",
    "C65": "line breaking is a runtime optimisation in the (absent) biome printer over measured text widths",
}
