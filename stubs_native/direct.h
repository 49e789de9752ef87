/* empty: header of another platform */
