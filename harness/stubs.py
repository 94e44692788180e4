"""Scripted quantifiers: they record what they are fitted with and applied to, and answer what they are told."""
import numpy as np
from sklearn.base import BaseEstimator, ClassifierMixin
from sklearn.exceptions import NotFittedError
from quantificationlib.base import UsingClassifiers, WithoutClassifiers


class RecX(WithoutClassifiers):
    """classifier-free"""

    def __init__(self):
        super().__init__()
        self.fits, self.asked, self.answer = [], [], None

    def fit(self, X, y):
        self.fits.append((np.array(X), np.array(y)))
        self.classes_ = np.unique(y)
        return self

    def predict(self, X):
        self.asked.append(np.array(X))
        return np.array([1., 0.]) if self.answer is None else np.array(self.answer)


class RecY(UsingClassifiers):
    """classifier-based"""

    def __init__(self, probabilistic=True, estimator_train=None, estimator_test=None):
        super().__init__(estimator_train=estimator_train, estimator_test=estimator_test, needs_predictions_train=True, probabilistic_predictions=probabilistic)
        self.fits, self.asked, self.answer = [], [], None

    def fit(self, X, y, predictions_train=None):
        self.fits.append((np.array(predictions_train), np.array(y)))
        self.classes_ = np.unique(y)
        return self

    def predict(self, X, predictions_test=None):
        self.asked.append(np.array(predictions_test))
        return np.array([1., 0.]) if self.answer is None else np.array(self.answer)


class RecE(UsingClassifiers):
    """classifier-based, predictions taken from the given predictions or its own estimators by the library's base class"""

    def __init__(self, probabilistic=True, needs=True, estimator_train=None, estimator_test=None):
        super().__init__(estimator_train=estimator_train, estimator_test=estimator_test, needs_predictions_train=needs, probabilistic_predictions=probabilistic)
        self.fits, self.asked, self.answer = [], [], None

    def fit(self, X, y, predictions_train=None):
        super().fit(X, y, predictions_train=predictions_train)
        self.fits.append((None if self.predictions_train_ is None else np.array(self.predictions_train_), np.array(y if self.y_ext_ is None else self.y_ext_)))
        return self

    def predict(self, X, predictions_test=None):
        super().predict(X, predictions_test)
        self.asked.append(np.array(self.predictions_test_))
        return np.array([1., 0.]) if self.answer is None else np.array(self.answer)


class Oracle(BaseEstimator, ClassifierMixin):
    """Binary estimator that finds out which binary problem it was trained for (feature 1 is the class number) and answers
    with the probability of the positive group (of the lower class, for pairs) that the feature of this problem holds."""

    def __init__(self, scheme="fh", k=3, extra=0, off=0):
        self.scheme, self.k, self.extra, self.off = scheme, k, extra, off

    def fit(self, X, y):
        X, y = np.asarray(X), np.asarray(y)
        self.classes_ = np.unique(y)
        self.pos_ = sorted(set(int(v) for v in X[y == self.classes_[-1], 1])) if len(self.classes_) > 1 else []
        self.neg_ = sorted(set(int(v) for v in X[y == self.classes_[0], 1]))
        self.binary_ = [(int(i), int(v)) for i, v in zip(X[:, 0], y)]
        if self.scheme == "pair":
            i, j = sorted((self.neg_ + self.pos_ + [1, 2])[:2])
            self.col_ = (i - 1) * self.k + j - 1
        else:
            self.col_ = min(self.pos_[-1] if self.pos_ else 1, self.k - (self.scheme == "fh")) - 1
        return self

    def predict_proba(self, X):
        if not hasattr(self, "col_"):
            raise NotFittedError("unfitted")
        p = np.asarray(X)[:, 2 + self.off + self.col_]
        return np.array([p, 1 - p] if self.scheme == "pair" else [1 - p, p]).T

    def predict(self, X):
        return self.classes_[np.argmax(self.predict_proba(X), axis=1)]
