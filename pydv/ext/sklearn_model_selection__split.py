from sklearn.model_selection import check_cv
