"""Stand-in for the parts of scikit-learn 1.2 that convst calls, after its documented behaviour."""
