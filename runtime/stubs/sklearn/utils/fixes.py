from joblib import delayed
