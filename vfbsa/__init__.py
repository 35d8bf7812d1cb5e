"""Static analysis of LucasFonts/vfbLib (standard library only)."""
