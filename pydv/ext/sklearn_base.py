"""Assumed contracts of sklearn.base"""
import copy


def is_classifier(estimator):
    return True


def clone(estimator):
    return copy.deepcopy(estimator)
