"""One function per known finding: does this failing case show exactly that finding?"""
