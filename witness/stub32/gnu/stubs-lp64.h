/* empty: lets the host's C library headers serve foreign targets */
