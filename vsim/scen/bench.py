"""Benchmark experiments: configurations from start to report, with real methods on the toy dataset."""

from __future__ import annotations

import copy
import hashlib
import json
import math
import os
import sys
from pathlib import Path

from .. import seam
from ..canon import canon, diff
from ..core import HarnessError, Violation, tb_tail
from . import Scenario

# one small configuration per method of the repository's toy benchmark (A: augmentation, V: views, G: graph)
METHODS = {
    'adamatch': {'kind': 'inductive', 'params': {'lambda_u': 1.0, 'p_cutoff': 0.95, 'temperature': 0.5, 'ema_p': 0.999, 'hard_label': True, 'use_cat': False, 'batch_size': 16, 'max_epochs': 2, 'detach_target': True}, 'model': {'classifier_id': 'mlp', 'classifier_backend': 'torch', 'classifier_params': {'hidden_sizes': [8], 'activation': 'relu', 'dropout': 0.1, 'lr': 0.001, 'weight_decay': 0.0, 'batch_size': 16, 'max_epochs': 2}, 'ema': False}, 'needs': 'A'},
    'adsh': {'kind': 'inductive', 'params': {'lambda_u': 1.0, 'p_cutoff': 0.95, 'use_cat': False, 'batch_size': 16, 'max_epochs': 2, 'detach_target': True, 'score_warmup_epochs': 2}, 'model': {'classifier_id': 'mlp', 'classifier_backend': 'torch', 'classifier_params': {'hidden_sizes': [8], 'activation': 'relu', 'dropout': 0.1, 'lr': 0.001, 'weight_decay': 0.0, 'batch_size': 16, 'max_epochs': 2}, 'ema': False}, 'needs': 'A'},
    'co_training': {'kind': 'inductive', 'params': {'classifier_id': 'mlp', 'classifier_backend': 'torch', 'classifier_params': {'hidden_sizes': [8], 'activation': 'relu', 'dropout': 0.1, 'lr': 0.001, 'weight_decay': 0.0, 'batch_size': 16, 'max_epochs': 2}, 'max_iter': 3, 'k_per_class': 1}, 'needs': 'V'},
    'comatch': {'kind': 'inductive', 'params': {'lambda_u': 1.0, 'p_cutoff': 0.95, 'temperature': 0.5, 'hard_label': True, 'use_cat': False, 'batch_size': 16, 'max_epochs': 2, 'detach_target': True}, 'model': {'classifier_id': 'mlp', 'classifier_backend': 'torch', 'classifier_params': {'return_features': True, 'hidden_sizes': [8], 'activation': 'relu', 'dropout': 0.1, 'lr': 0.001, 'weight_decay': 0.0, 'batch_size': 16, 'max_epochs': 2}, 'ema': False}, 'needs': 'A'},
    'daso': {'kind': 'inductive', 'params': {'lambda_u': 1.0, 'lambda_align': 1.0, 'p_cutoff': 0.95, 't_proto': 0.05, 't_dist': 1.5, 'queue_size': 16, 'pretrain_steps': 2, 'dist_update_period': 1, 'ema_decay': 0.999, 'use_ema': True, 'dist_aware': True, 'interp_alpha': 0.5, 'hard_label': True, 'use_cat': False, 'batch_size': 16, 'max_epochs': 2, 'detach_target': True}, 'model': {'classifier_id': 'mlp', 'classifier_backend': 'torch', 'classifier_params': {'hidden_sizes': [8], 'activation': 'relu', 'dropout': 0.1, 'lr': 0.001, 'weight_decay': 0.0, 'batch_size': 16, 'max_epochs': 2}, 'ema': False}, 'needs': 'A'},
    'deep_co_training': {'kind': 'inductive', 'params': {'lambda_cot': 1.0, 'lambda_dif': 1.0, 'adv_eps': 0.03, 'batch_size': 16, 'max_epochs': 2, 'freeze_bn': True, 'detach_target': True}, 'model': {'classifier_id': 'mlp', 'classifier_backend': 'torch', 'classifier_params': {'hidden_sizes': [8], 'activation': 'relu', 'dropout': 0.1, 'lr': 0.001, 'weight_decay': 0.0, 'batch_size': 16, 'max_epochs': 2}, 'ema': False}, 'needs': 'A'},
    'defixmatch': {'kind': 'inductive', 'params': {'lambda_u': 1.0, 'p_cutoff': 0.95, 'temperature': 0.5, 'hard_label': True, 'use_cat': False, 'batch_size': 16, 'max_epochs': 2, 'detach_target': True}, 'model': {'classifier_id': 'mlp', 'classifier_backend': 'torch', 'classifier_params': {'hidden_sizes': [8], 'activation': 'relu', 'dropout': 0.1, 'lr': 0.001, 'weight_decay': 0.0, 'batch_size': 16, 'max_epochs': 2}, 'ema': False}, 'needs': 'A'},
    'democratic_co_learning': {'kind': 'inductive', 'params': {'classifier_id': 'mlp', 'classifier_backend': 'torch', 'classifier_params': {'hidden_sizes': [8], 'activation': 'relu', 'dropout': 0.1, 'lr': 0.001, 'weight_decay': 0.0, 'batch_size': 16, 'max_epochs': 2}, 'max_iter': 3, 'confidence_level': 0.95, 'min_confidence': 0.5, 'n_learners': 3}, 'needs': ''},
    'fixmatch': {'kind': 'inductive', 'params': {'lambda_u': 1.0, 'p_cutoff': 0.95, 'temperature': 0.5, 'hard_label': True, 'use_cat': False, 'batch_size': 16, 'max_epochs': 2, 'detach_target': True}, 'model': {'classifier_id': 'mlp', 'classifier_backend': 'torch', 'classifier_params': {'hidden_sizes': [8], 'activation': 'relu', 'dropout': 0.1, 'lr': 0.001, 'weight_decay': 0.0, 'batch_size': 16, 'max_epochs': 2}, 'ema': False}, 'needs': 'A'},
    'flexmatch': {'kind': 'inductive', 'params': {'lambda_u': 1.0, 'p_cutoff': 0.95, 'temperature': 0.5, 'hard_label': True, 'thresh_warmup': True, 'use_cat': False, 'batch_size': 16, 'max_epochs': 2, 'detach_target': True}, 'model': {'classifier_id': 'mlp', 'classifier_backend': 'torch', 'classifier_params': {'hidden_sizes': [8], 'activation': 'relu', 'dropout': 0.1, 'lr': 0.001, 'weight_decay': 0.0, 'batch_size': 16, 'max_epochs': 2}, 'ema': False}, 'needs': 'A'},
    'free_match': {'kind': 'inductive', 'params': {'lambda_u': 1.0, 'lambda_e': 0.01, 'temperature': 0.5, 'ema_p': 0.999, 'use_quantile': True, 'clip_thresh': False, 'hard_label': True, 'use_cat': False, 'batch_size': 16, 'max_epochs': 2, 'detach_target': True}, 'model': {'classifier_id': 'mlp', 'classifier_backend': 'torch', 'classifier_params': {'hidden_sizes': [8], 'activation': 'relu', 'dropout': 0.1, 'lr': 0.001, 'weight_decay': 0.0, 'batch_size': 16, 'max_epochs': 2}, 'ema': False}, 'needs': 'A'},
    'mean_teacher': {'kind': 'inductive', 'params': {'lambda_u': 1.0, 'unsup_warm_up': 0.4, 'batch_size': 16, 'max_epochs': 2, 'ema_decay': 0.999, 'freeze_bn': True, 'detach_target': True}, 'model': {'classifier_id': 'mlp', 'classifier_backend': 'torch', 'classifier_params': {'hidden_sizes': [8], 'activation': 'relu', 'dropout': 0.1, 'lr': 0.001, 'weight_decay': 0.0, 'batch_size': 16, 'max_epochs': 2}, 'ema': True}, 'needs': 'A'},
    'meta_pseudo_labels': {'kind': 'inductive', 'params': {'uda_weight': 1.0, 'uda_threshold': 0.8, 'uda_temperature': 0.4, 'label_smoothing': 0.1, 'mpl_ema': 0.99, 'mpl_weight': 1.0, 'batch_size': 16, 'max_epochs': 2, 'detach_target': True}, 'model': {'classifier_id': 'mlp', 'classifier_backend': 'torch', 'classifier_params': {'hidden_sizes': [8], 'activation': 'relu', 'dropout': 0.1, 'lr': 0.001, 'weight_decay': 0.0, 'batch_size': 16, 'max_epochs': 2}, 'ema': False}, 'needs': 'A'},
    'mixmatch': {'kind': 'inductive', 'params': {'lambda_u': 1.0, 'temperature': 0.5, 'mixup_alpha': 0.5, 'unsup_warm_up': 0.4, 'mixup_manifold': False, 'freeze_bn': False, 'batch_size': 16, 'max_epochs': 2}, 'model': {'classifier_id': 'mlp', 'classifier_backend': 'torch', 'classifier_params': {'hidden_sizes': [8], 'activation': 'relu', 'dropout': 0.1, 'lr': 0.001, 'weight_decay': 0.0, 'batch_size': 16, 'max_epochs': 2}, 'ema': False}, 'needs': 'A'},
    'noisy_student': {'kind': 'inductive', 'params': {'lambda_u': 1.0, 'p_cutoff': 0.95, 'temperature': 0.5, 'hard_label': True, 'use_cat': False, 'batch_size': 16, 'max_epochs': 2, 'detach_target': True}, 'model': {'classifier_id': 'mlp', 'classifier_backend': 'torch', 'classifier_params': {'hidden_sizes': [8], 'activation': 'relu', 'dropout': 0.1, 'lr': 0.001, 'weight_decay': 0.0, 'batch_size': 16, 'max_epochs': 2}, 'ema': False}, 'needs': 'A'},
    'pi_model': {'kind': 'inductive', 'params': {'lambda_u': 1.0, 'unsup_warm_up': 0.4, 'batch_size': 16, 'max_epochs': 2, 'freeze_bn': False, 'detach_target': True}, 'model': {'classifier_id': 'mlp', 'classifier_backend': 'torch', 'classifier_params': {'hidden_sizes': [8], 'activation': 'relu', 'dropout': 0.1, 'lr': 0.001, 'weight_decay': 0.0, 'batch_size': 16, 'max_epochs': 2}, 'ema': False}, 'needs': 'A'},
    'pseudo_label': {'kind': 'inductive', 'params': {'classifier_id': 'mlp', 'classifier_backend': 'torch', 'classifier_params': {'hidden_sizes': [8], 'activation': 'relu', 'dropout': 0.1, 'lr': 0.001, 'weight_decay': 0.0, 'batch_size': 16, 'max_epochs': 2}, 'max_iter': 3, 'confidence_threshold': 0.95, 'min_new_labels': 1}, 'needs': ''},
    'self_training': {'kind': 'inductive', 'params': {'classifier_id': 'mlp', 'classifier_backend': 'torch', 'classifier_params': {'hidden_sizes': [8], 'activation': 'relu', 'dropout': 0.1, 'lr': 0.001, 'weight_decay': 0.0, 'batch_size': 16, 'max_epochs': 2}, 'max_iter': 3, 'confidence_threshold': 0.95, 'min_new_labels': 1}, 'needs': ''},
    'setred': {'kind': 'inductive', 'params': {'classifier_id': 'mlp', 'classifier_backend': 'torch', 'classifier_params': {'hidden_sizes': [8], 'activation': 'relu', 'dropout': 0.1, 'lr': 0.001, 'weight_decay': 0.0, 'batch_size': 16, 'max_epochs': 2}, 'max_iter': 3, 'confidence_threshold': 0.95, 'pool_size': 20, 'max_new_labels': 50, 'min_new_labels': 1, 'theta': 0.05, 'graph_type': 'knn', 'knn_k': 10, 'edge_weight': 'uniform'}, 'needs': ''},
    'simclr_v2': {'kind': 'inductive', 'params': {'batch_size': 16, 'pretrain_epochs': 1, 'finetune_epochs': 2, 'distill_epochs': 1, 'temperature': 0.5, 'distill_temperature': 1.0, 'alpha': 0.5, 'transfer_pretrain': True, 'use_labeled_in_distill': True, 'freeze_bn': True, 'detach_target': True}, 'model': {'classifier_id': 'mlp', 'classifier_backend': 'torch', 'classifier_params': {'hidden_sizes': [8], 'activation': 'relu', 'dropout': 0.1, 'lr': 0.001, 'weight_decay': 0.0, 'batch_size': 16, 'max_epochs': 2}, 'ema': False}, 'needs': 'A'},
    'softmatch': {'kind': 'inductive', 'params': {'lambda_u': 1.0, 'temperature': 0.5, 'ema_p': 0.999, 'n_sigma': 2.0, 'per_class': False, 'dist_align': True, 'dist_uniform': True, 'hard_label': True, 'use_cat': False, 'batch_size': 16, 'max_epochs': 2, 'detach_target': True}, 'model': {'classifier_id': 'mlp', 'classifier_backend': 'torch', 'classifier_params': {'hidden_sizes': [8], 'activation': 'relu', 'dropout': 0.1, 'lr': 0.001, 'weight_decay': 0.0, 'batch_size': 16, 'max_epochs': 2}, 'ema': False}, 'needs': 'A'},
    'supervised': {'kind': 'inductive', 'params': {'classifier_id': 'mlp', 'classifier_backend': 'torch', 'classifier_params': {'hidden_sizes': [8], 'activation': 'relu', 'dropout': 0.1, 'lr': 0.001, 'weight_decay': 0.0, 'batch_size': 16, 'max_epochs': 2}}, 'needs': ''},
    'temporal_ensembling': {'kind': 'inductive', 'params': {'lambda_u': 1.0, 'unsup_warm_up': 0.4, 'batch_size': 16, 'max_epochs': 2, 'alpha': 0.6, 'freeze_bn': True, 'detach_target': True}, 'model': {'classifier_id': 'mlp', 'classifier_backend': 'torch', 'classifier_params': {'hidden_sizes': [8], 'activation': 'relu', 'dropout': 0.1, 'lr': 0.001, 'weight_decay': 0.0, 'batch_size': 16, 'max_epochs': 2}, 'ema': False}, 'needs': 'A'},
    'tri_training': {'kind': 'inductive', 'params': {'classifier_id': 'mlp', 'classifier_backend': 'torch', 'classifier_params': {'hidden_sizes': [8], 'activation': 'relu', 'dropout': 0.1, 'lr': 0.001, 'weight_decay': 0.0, 'batch_size': 16, 'max_epochs': 2}, 'max_iter': 3, 'bootstrap_ratio': 1.0}, 'needs': ''},
    'trinet': {'kind': 'inductive', 'params': {'max_rounds': 1, 'pool_base': 10}, 'model': {'classifier_id': 'mlp', 'classifier_backend': 'torch', 'classifier_params': {'hidden_sizes': [8], 'activation': 'relu', 'dropout': 0.1, 'lr': 0.001, 'weight_decay': 0.0, 'batch_size': 16, 'max_epochs': 2}, 'ema': False}, 'needs': 'A'},
    'uda': {'kind': 'inductive', 'params': {'lambda_u': 1.0, 'p_cutoff': 0.8, 'temperature': 0.4, 'tsa_schedule': 'none', 'use_cat': False, 'batch_size': 16, 'max_epochs': 2, 'detach_target': True}, 'model': {'classifier_id': 'mlp', 'classifier_backend': 'torch', 'classifier_params': {'hidden_sizes': [8], 'activation': 'relu', 'dropout': 0.1, 'lr': 0.001, 'weight_decay': 0.0, 'batch_size': 16, 'max_epochs': 2}, 'ema': False}, 'needs': 'A'},
    'vat': {'kind': 'inductive', 'params': {'lambda_u': 1.0, 'unsup_warm_up': 0.4, 'batch_size': 16, 'max_epochs': 2, 'freeze_bn': False, 'detach_target': True}, 'model': {'classifier_id': 'mlp', 'classifier_backend': 'torch', 'classifier_params': {'hidden_sizes': [8], 'activation': 'relu', 'dropout': 0.1, 'lr': 0.001, 'weight_decay': 0.0, 'batch_size': 16, 'max_epochs': 2}, 'ema': False}, 'needs': 'A'},
    'appnp': {'kind': 'transductive', 'params': {'hidden_dim': 8, 'dropout': 0.5, 'k': 10, 'alpha': 0.1, 'lr': 0.01, 'weight_decay': 0.0005, 'max_epochs': 2, 'patience': 50, 'add_self_loops': True}, 'needs': 'G'},
    'chebnet': {'kind': 'transductive', 'params': {'hidden_dim': 8, 'k': 2, 'dropout': 0.5, 'lr': 0.01, 'weight_decay': 0.0005, 'max_epochs': 2, 'patience': 50, 'add_self_loops': True}, 'needs': 'G'},
    'dynamic_label_propagation': {'kind': 'transductive', 'params': {'k_neighbors': 10, 'alpha': 0.05, 'lambda_value': 0.1, 'max_iter': 3}, 'needs': 'G'},
    'gat': {'kind': 'transductive', 'params': {'head_dim': 4, 'heads': 2, 'dropout': 0.6, 'negative_slope': 0.2, 'lr': 0.005, 'weight_decay': 0.0005, 'max_epochs': 2, 'patience': 100, 'add_self_loops': True}, 'needs': 'G'},
    'gcn': {'kind': 'transductive', 'params': {'hidden_dim': 8, 'dropout': 0.5, 'lr': 0.01, 'weight_decay': 0.0005, 'max_epochs': 2, 'patience': 50, 'add_self_loops': True}, 'needs': 'G'},
    'gcnii': {'kind': 'transductive', 'params': {'hidden_dim': 8, 'num_layers': 3, 'alpha': 0.1, 'lam': 0.5, 'dropout': 0.5, 'lr': 0.01, 'weight_decay': 0.0005, 'max_epochs': 2, 'patience': 50, 'add_self_loops': True}, 'needs': 'G'},
    'grafn': {'kind': 'transductive', 'params': {'hidden_dims': [8, 8], 'lr': 0.01, 'weight_decay': 1e-05, 'max_epochs': 2, 'patience': 50, 'tau': 0.1, 'thres': 0.9, 'lam_consistency': 0.5, 'lam_nodewise': 0.5, 'drop_feat_strong': 0.5, 'drop_edge_strong': 0.5, 'drop_feat_weak': 0.1, 'drop_edge_weak': 0.1}, 'needs': 'G'},
    'grand': {'kind': 'transductive', 'params': {'hidden_dim': 8, 'mlp_dropout': 0.5, 'prop_steps': 2, 'dropnode': 0.5, 'num_samples': 2, 'lambda_consistency': 1.0, 'lr': 0.01, 'weight_decay': 0.0005, 'max_epochs': 2, 'patience': 50, 'add_self_loops': True}, 'needs': 'G'},
    'graphhop': {'kind': 'transductive', 'params': {'hops': 2, 'max_iter': 3, 'lr': 0.01, 'weight_decay': 0.0005, 'max_epochs': 2, 'patience': 50, 'min_delta': 0.01, 'temperature': 0.1, 'alpha': 1.0, 'beta': 1.0, 'symmetrize': True}, 'needs': 'G'},
    'graphsage': {'kind': 'transductive', 'params': {'hidden_dim': 8, 'dropout': 0.5, 'lr': 0.01, 'weight_decay': 0.0005, 'max_epochs': 2, 'patience': 50, 'add_self_loops': False}, 'needs': 'G'},
    'h_gcn': {'kind': 'transductive', 'params': {'hidden_dim': 8, 'weight_embed_dim': 4, 'num_layers': 3, 'channels': 2, 'dropout': 0.15, 'lr': 0.03, 'weight_decay': 0.0007, 'max_epochs': 2, 'patience': 50, 'add_self_loops': True, 'symmetrize': True}, 'needs': 'G'},
    'label_propagation': {'kind': 'transductive', 'params': {'norm': 'rw', 'max_iter': 3, 'tol': 1e-06, 'normalize_rows': True}, 'needs': 'G'},
    'label_spreading': {'kind': 'transductive', 'params': {'alpha': 0.99, 'norm': 'sym', 'max_iter': 3, 'tol': 1e-06, 'normalize_rows': True}, 'needs': 'G'},
    'laplace_learning': {'kind': 'transductive', 'params': {}, 'needs': 'G'},
    'lazy_random_walk': {'kind': 'transductive', 'params': {'alpha': 0.99}, 'needs': 'G'},
    'n_gcn': {'kind': 'transductive', 'params': {'hidden_dim': 8, 'gcn_layers': 2, 'K': 2, 'r': 2, 'classifier': 'fc', 'dropout': 0.5, 'lr': 0.01, 'weight_decay': 1e-05, 'max_epochs': 2, 'patience': 50, 'add_self_loops': True, 'symmetrize': True}, 'needs': 'G'},
    'p_laplace_learning': {'kind': 'transductive', 'params': {'p': 3.0, 'max_iter': 3, 'tol': 1e-06, 'cg_tol': 1e-06, 'cg_max_iter': 50, 'eps': 1e-12, 'symmetrize': True, 'zero_diagonal': True}, 'needs': 'G'},
    'planetoid': {'kind': 'transductive', 'params': {'embedding_dim': 8, 'num_walks': 1, 'walk_length': 6, 'window_size': 2, 'p': 1.0, 'q': 1.0, 'num_negative': 5, 'batch_size': 16, 'sup_batch_size': 8, 'epochs': 1, 'lr': 0.01, 'weight_decay': 0.0, 'lambda_sup': 1.0, 'undirected': True}, 'needs': 'G'},
    'poisson_learning': {'kind': 'transductive', 'params': {'backend': 'numpy', 'laplacian_kind': 'sym', 'eps': 1e-06, 'center_sources': True, 'tol': 1e-06, 'max_iter': 3}, 'needs': 'G'},
    'poisson_mbo': {'kind': 'transductive', 'params': {'T': 8, 'Ninner': 3, 'Nouter': 3, 'mu': 1.0, 'd_tau': 10.0, 'smin': 0.5, 'smax': 2.0, 'n_volume_iters': 5, 'b_strategy': 'uniform', 'symmetrize': True, 'zero_diagonal': True}, 'needs': 'G'},
    'sgc': {'kind': 'transductive', 'params': {'k': 2, 'lr': 0.1, 'weight_decay': 0.0, 'max_epochs': 2, 'patience': 50, 'add_self_loops': True}, 'needs': 'G'},
}
LIGHT = {
    "pseudo_label": [{"classifier_id": "knn", "classifier_backend": "numpy", "max_iter": 3, "confidence_threshold": 0.6},
                     {"classifier_id": "logreg", "classifier_backend": "sklearn", "max_iter": 2, "confidence_threshold": 0.5},
                     {"classifier_id": "gaussian_nb", "classifier_backend": "sklearn", "max_iter": 2}],
    "self_training": [{"classifier_id": "knn", "classifier_backend": "numpy", "max_iter": 2},
                      {"classifier_id": "random_forest", "classifier_backend": "sklearn", "classifier_params": {"n_estimators": 3}, "max_iter": 2}],
    "supervised": [{"classifier_id": "knn", "classifier_backend": "numpy"}, {"classifier_id": "extra_trees", "classifier_backend": "sklearn",
                    "classifier_params": {"n_estimators": 3}}, {"classifier_id": "logreg", "classifier_backend": "sklearn"},
                   {"classifier_id": "gradient_boosting", "classifier_backend": "sklearn"}, {"classifier_id": "linear_svm", "classifier_backend": "sklearn"},
                   {"classifier_id": "svm_rbf", "classifier_backend": "sklearn"}, {"classifier_id": "ridge", "classifier_backend": "sklearn"}],
    "tri_training": [{"classifier_id": "knn", "classifier_backend": "numpy", "max_iter": 2, "bootstrap_ratio": 1.0}],
    "democratic_co_learning": [{"classifier_id": "gaussian_nb", "classifier_backend": "sklearn", "max_iter": 2, "n_learners": 3}],
    "setred": [{"classifier_id": "knn", "classifier_backend": "numpy", "max_iter": 2, "pool_size": 10}],
    "co_training": [{"classifier_id": "knn", "classifier_backend": "numpy", "max_iter": 2, "k_per_class": 1}],
    "s4vm": [{}], "tsvm": [{"max_iter": 2}],
    "label_propagation": [{"max_iter": 5}, {}], "label_spreading": [{"max_iter": 5, "alpha": 0.9}], "laplace_learning": [{}],
    "lazy_random_walk": [{"alpha": 0.9}], "p_laplace_learning": [{"max_iter": 3}], "graph_mincuts": [{}],
    "poisson_learning": [{"backend": "numpy", "max_iter": 10}], "dynamic_label_propagation": [{"max_iter": 3, "k_neighbors": 4}],
}
KIND = {"s4vm": "inductive", "tsvm": "transductive", "graph_mincuts": "transductive"}
BINARY = ("s4vm", "tsvm", "lazy_random_walk", "graph_mincuts")
PRE = [
    [{"id": "core.ensure_2d"}, {"id": "core.to_numpy"}],
    [{"id": "labels.encode"}, {"id": "core.ensure_2d"}, {"id": "tabular.impute"}, {"id": "tabular.standard_scaler"}],
    [{"id": "core.ensure_2d"}, {"id": "core.pca", "params": {"n_components": 3}}, {"id": "core.to_numpy"}],
    [{"id": "labels.encode"}, {"id": "core.ensure_2d"}, {"id": "core.random_projection", "params": {"n_components": 3}}],
    [{"id": "core.ensure_2d"}, {"id": "tabular.standard_scaler"}, {"id": "core.pca", "params": {"n_components": 2}}],
]
PRE_T = [
    [{"id": "labels.encode"}, {"id": "labels.to_torch", "params": {"device": "cpu", "dtype": "int64"}}, {"id": "core.ensure_2d"},
     {"id": "tabular.standard_scaler"}, {"id": "core.to_torch", "params": {"device": "cpu", "dtype": "float32"}}],
    [{"id": "core.ensure_2d"}, {"id": "core.pca", "params": {"n_components": 3}}, {"id": "core.to_torch", "params": {"device": "cpu", "dtype": "float32"}}],
]
AUG = {"enabled": True, "seed": 1, "mode": "fixed", "modality": "tabular",
       "weak": {"steps": [{"id": "tabular.gaussian_noise", "params": {"std": 0.01}}]},
       "strong": {"steps": [{"id": "tabular.swap_noise", "params": {"p": 0.3}}, {"id": "tabular.gaussian_noise", "params": {"std": 0.2}}]}}
VIEWS = [
    {"views": [{"name": "a", "columns": {"mode": "random", "fraction": 0.5}}, {"name": "b", "columns": {"mode": "complement", "complement_of": "a"}}]},
    {"views": [{"name": "a", "columns": {"mode": "indices", "indices": [0, 1]}},
               {"name": "b", "columns": {"mode": "random", "fraction": 0.6, "seed_offset": 3}}]},
]
GRAPHS = [
    {"scheme": "knn", "metric": "cosine", "k": 5, "symmetrize": "or", "weights": {"kind": "heat", "sigma": 1.0}, "normalize": "rw",
     "self_loops": True, "backend": "numpy", "feature_field": "features.X"},
    {"scheme": "knn", "metric": "euclidean", "k": 4, "symmetrize": "or", "weights": {"kind": "binary"}, "backend": "numpy", "chunk_size": 7,
     "feature_field": "features.X"},
    {"scheme": "knn", "metric": "euclidean", "k": 3, "symmetrize": "mutual", "backend": "sklearn", "feature_field": "features.X"},
]
# other values of method parameters, by name
VARY = {
    "hard_label": [True, False], "use_cat": [True, False], "detach_target": [True, False], "thresh_warmup": [True, False],
    "use_quantile": [True, False], "clip_thresh": [True, False], "freeze_bn": [True, False], "mixup_manifold": [True, False],
    "dist_align": [True, False], "dist_uniform": [True, False], "per_class": [True, False], "transfer_pretrain": [True, False],
    "use_labeled_in_distill": [True, False], "use_ema": [True, False], "dist_aware": [True, False], "init_teacher_from_student": [True, False],
    "add_self_loops": [True, False], "symmetrize": [True, False], "zero_diagonal": [True, False], "undirected": [True, False],
    "normalize_rows": [True, False], "center_sources": [True, False], "balance": [True, False],
    "norm": ["rw", "sym"], "tsa_schedule": ["none", "linear", "exp", "log"], "backend": ["numpy", "torch", "auto"],
    "laplacian_kind": ["sym", "rw"], "graph_type": ["rng", "knn"], "edge_weight": ["uniform", "distance", "inverse_distance"],
    "classifier": ["fc", "attention"], "b_strategy": ["uniform", "labeled"],
    "p_cutoff": [0.95, 0.5, 0.0], "contrast_p_cutoff": [0.8, 0.3], "lambda_u": [1.0, 0.0, 5.0], "unsup_warm_up": [0.4, 0.0, 1.0],
    "dropout": [0.5, 0.0], "mlp_dropout": [0.5, 0.0], "confidence_threshold": [0.5, 0.9, 0.7], "max_new_labels": [None, 2, 5],
    "min_new_labels": [1, 3], "num_iters": [1, 2], "ema_p": [0.999, 0.5], "ema_decay": [0.999, 0.5], "bootstrap_ratio": [1.0, 0.5],
    "k_per_class": [1, 2], "n_learners": [3, 5], "min_confidence": [0.5, 0.0], "score_warmup_epochs": [2, 0], "mixup_alpha": [0.5, 2.0],
    "label_smoothing": [0.1, 0.0], "teacher_epochs": [1, 2], "pretrain_steps": [2, 0], "queue_size": [16, 4], "min_queue_fill": [0, 8],
    "pool_size": [20, 6, None], "theta": [0.05, 0.5], "knn_k": [10, 3], "smoothing_alpha": [0.9, 0.5], "da_len": [256, 2],
    "batch_size": [16, 8, 5, 64], "max_epochs": [2, 1, 4], "K": [2, 1, 3], "r": [2, 1], "hops": [2, 1], "k": [2, 1, 3],
    "k_candidates": [6, 2], "flip_rate": [0.05, 0.3], "p": [3.0, 2.0], "num_samples": [2, 1], "heads": [2, 1], "num_layers": [3, 2],
    "walk_length": [6, 3], "num_walks": [1, 2], "fine_tune_interval": [4, 1], "max_rounds": [1, 2], "pool_base": [10, 4],
    "des_passes": [6, 2], "labeling_stability_passes": [1, 3], "output_smearing_std": [0.05, 0.0], "alpha": [0.1, 0.5, 0.9],
    "max_iter": [3, 1, 6],
}
# parameters of the methods the toy benchmark leaves at their defaults
MORE = {
    "comatch": ("contrast_p_cutoff", "smoothing_alpha", "da_len", "dist_align", "dist_uniform", "min_queue_fill", "queue_size"),
    "co_training": ("confidence_threshold",), "noisy_student": ("teacher_epochs", "unsup_warm_up"), "vat": ("num_iters",),
    "pseudo_label": ("max_new_labels", "min_new_labels"), "self_training": ("max_new_labels", "min_new_labels"),
    "setred": ("max_new_labels", "min_new_labels", "graph_type", "edge_weight", "theta", "knn_k"),
    "tri_training": ("confidence_threshold", "max_new_labels"), "s4vm": ("k_candidates", "flip_rate"), "tsvm": ("balance", "max_iter"),
    "trinet": ("fine_tune_interval", "des_passes", "labeling_stability_passes", "output_smearing_std"),
    "meta_pseudo_labels": ("init_teacher_from_student",), "label_spreading": ("norm", "normalize_rows", "alpha", "max_iter"),
    "label_propagation": ("norm", "normalize_rows"), "lazy_random_walk": ("alpha",),
    "poisson_learning": ("laplacian_kind", "center_sources", "backend"), "simclr_v2": ("freeze_bn",), "democratic_co_learning": ("min_confidence",),
}
SKCLS = [("knn", "numpy", {}), ("knn", "sklearn", {}), ("logreg", "sklearn", {}), ("gaussian_nb", "sklearn", {}), ("ridge", "sklearn", {}),
         ("random_forest", "sklearn", {"n_estimators": 3}), ("extra_trees", "sklearn", {"n_estimators": 3}),
         ("gradient_boosting", "sklearn", {"n_estimators": 3}), ("svm_rbf", "sklearn", {}), ("linear_svm", "sklearn", {}),
         ("knn", "numpy", {"k": 3, "metric": "cosine", "weights": "distance"})]
TCLS = [("logreg", "torch", {"batch_size": 16, "max_epochs": 2}), ("knn", "torch", {}),
        ("mlp", "torch", {"hidden_sizes": [4], "batch_size": 8, "max_epochs": 2, "dropout": 0.5})]
STEPS = [  # optional numpy steps after ensure_2d
    [], [{"id": "tabular.impute"}], [{"id": "tabular.standard_scaler"}], [{"id": "core.pca", "params": {"n_components": 3}}],
    [{"id": "core.random_projection", "params": {"n_components": 3}}], [{"id": "core.cast_dtype", "params": {"dtype": "float64"}}],
    [{"id": "tabular.standard_scaler"}, {"id": "core.pca", "params": {"n_components": 2, "center": False}}],
    [{"id": "tabular.standard_scaler", "params": {"with_mean": False}}, {"id": "core.random_projection", "params": {"n_components": 4}}],
]
OPS = [
    [{"id": "tabular.gaussian_noise", "params": {"std": 0.01}}], [{"id": "tabular.swap_noise", "params": {"p": 0.3}}],
    [{"id": "tabular.feature_dropout", "params": {"p": 0.3}}], [{"id": "core.identity"}], [{"id": "core.ensure_float32"}],
    [{"id": "tabular.swap_noise", "params": {"p": 0.3}}, {"id": "tabular.gaussian_noise", "params": {"std": 0.2}}],
    [{"id": "tabular.feature_dropout", "params": {"p": 0.6}}, {"id": "tabular.swap_noise", "params": {"p": 0.1}}],
]


def vary(c, mid, params, p=(1, 5)):
    """Some parameters of a method set to another value."""
    for k in sorted(set(params) | set(MORE.get(mid, ()))):
        vals = VARY.get(k)
        if k == "backend" and mid != "poisson_learning" or k == "p" and mid == "planetoid" or k == "classifier" and mid != "n_gcn" or k == "num_layers" and mid == "h_gcn":
            continue
        if vals and c.flip(*p, "vary"):
            params[k] = vals[c.choose(len(vals), k)]
    if "patience" in params and c.flip(1, 3, "early-stop"):
        params["max_epochs"] = c.pick([12, 30, 6], "epochs")
        params["patience"] = c.pick([1, 3], "patience")
        if "lr" in params and c.flip(1, 2, "fast"):
            params["lr"] = 0.1
    return params


def gen_split(c):
    k = c.weighted([5, 3, 2], "split")
    if k == 1:
        n = c.pick([3, 4], "k")
        return {"kind": "kfold", "k": n, "fold": c.choose(n, "fold"), "val_fraction": 0.25, "stratify": c.flip(1, 2, "strat")}
    if k == 2:
        return {"kind": "holdout", "val_fraction": c.pick([0.3, 0.25], "val"), "test_fraction": c.pick([0.2, 0.3], "test"), "stratify": c.flip(1, 2, "strat"),
                "shuffle": c.flip(1, 2, "shuffle")}
    return {"kind": "holdout", "val_fraction": 0.2, "test_fraction": 0.2, "stratify": c.flip(1, 2, "strat")}


def gen_labeling(c):
    return copy.deepcopy(c.pick([
        {"mode": "per_class", "value": 3}, {"mode": "fraction", "value": 0.4, "min_per_class": 2},
        {"mode": "count", "value": 9, "strategy": "balanced", "min_per_class": 2}, {"mode": "count", "value": 12, "strategy": "proportional", "min_per_class": 1},
        {"mode": "per_class", "value": 2, "min_per_class": 2}, {"mode": "fraction", "value": 0.6, "strategy": "balanced", "min_per_class": 2}], "labeling"))


def gen_graph_spec(c, mid):
    if c.flip(1, 3, "known") or mid in ("laplace_learning", "lazy_random_walk", "dynamic_label_propagation") and c.flip(3, 4, "connected"):
        return copy.deepcopy(c.pick(GRAPHS, "graph"))
    sch = c.pick(["knn", "epsilon", "anchor"], "scheme")
    g = {"scheme": sch, "metric": c.pick(["euclidean", "cosine"], "gmetric"), "symmetrize": c.pick(["or", "none", "mutual"], "sym"),
         "weights": copy.deepcopy(c.pick([{"kind": "binary"}, {"kind": "heat", "sigma": 1.0}, {"kind": "heat", "sigma": 0.3}, {"kind": "cosine"}], "weights")),
         "normalize": c.pick(["none", "rw", "sym"], "norm"), "self_loops": c.flip(1, 2, "loops"), "feature_field": "features.X"}
    if g["weights"]["kind"] == "cosine":
        g["metric"] = "cosine"
    g["backend"] = "numpy" if sch == "anchor" else c.pick(["numpy", "sklearn", "auto"], "gbackend")
    if sch == "epsilon":
        g["radius"] = c.pick([1.5, 3.0], "radius") if g["metric"] == "euclidean" else c.pick([0.5, 0.9], "radius")
    else:
        g["k"] = c.pick([5, 3, 8], "k")
    if sch == "anchor":
        g.update(n_anchors=c.pick([8, None, 12], "anchors"), anchors_k=c.pick([3, 2], "ak"), anchors_method=c.pick(["random", "kmeans"], "am"))
    if c.flip(1, 2, "chunked"):
        g["chunk_size"] = c.pick([7, 3, 512], "chunk")
    return g


def gen_view_plan(c, nf):
    if c.flip(1, 3, "known"):
        return copy.deepcopy(c.pick(VIEWS, "views"))
    a = {"name": "a", "columns": c.pick([{"mode": "random", "fraction": 0.5}, {"mode": "random", "fraction": 0.75, "seed_offset": 2},
                                         {"mode": "indices", "indices": [1, 0]}, {"mode": "indices", "indices": [0]}], "cola")}
    b = {"name": "b", "columns": c.pick([{"mode": "complement", "complement_of": "a"}, {"mode": "random", "fraction": 0.5, "seed_offset": 9},
                                         {"mode": "all"}, {"mode": "indices", "indices": [1, 2]}], "colb")}
    for v in (a, b):
        if c.flip(1, 3, "view-pre"):
            v["preprocess"] = {"output_key": "features.X", "steps": [{"id": "core.ensure_2d"}, *copy.deepcopy(c.pick(STEPS[1:], "vsteps"))]}
    return copy.deepcopy({"views": [a, b]})


def gen_pre(c, torchy):
    if c.flip(1, 2, "known"):
        return copy.deepcopy(c.pick(PRE_T if torchy else PRE, "pre"))
    steps = [{"id": "labels.encode"}] if c.flip(1, 2, "encode") else []
    if torchy and c.flip(1, 2, "ytorch"):
        steps.append({"id": "labels.to_torch", "params": {"device": "cpu", "dtype": "int64"}})
    steps.append({"id": "core.ensure_2d"})
    steps += copy.deepcopy(STEPS[c.choose(len(STEPS), "steps")])
    steps += [{"id": "core.to_torch", "params": {"device": "cpu", "dtype": "float32"}}] if torchy else [{"id": "core.to_numpy"}] if c.flip(1, 3, "np") else []
    return steps


SEEDED = ("sampling", "preprocess", "views", "graph", "augmentation", "search")


UNITS = [(False, m) for m in METHODS] + [(True, m) for m in LIGHT]


def gen_cfg(c, name="exp", light=True, search=None):
    """One experiment configuration; `light` keeps to methods without deep networks, None takes turns through all of them."""
    if light is None:
        light, mid = UNITS[c.turn(len(UNITS), "method")]
    else:
        mid = c.pick(list(LIGHT if light else METHODS), "method")
    broad = c.flip(3, 4, "broad")
    if light:
        m = {"kind": KIND.get(mid) or METHODS[mid]["kind"], "id": mid, "params": copy.deepcopy(c.pick(LIGHT[mid], "params"))}
        needs = "G" if m["kind"] == "transductive" else "V" if mid == "co_training" else ""
        torchy = False
    else:
        row = copy.deepcopy(METHODS[mid])
        needs = row.pop("needs")
        m = {"id": mid, **row}
        torchy = "A" in needs or m["params"].get("classifier_backend") == "torch"
    if broad:
        vary(c, mid, m["params"])
        if "classifier_id" in m["params"] and c.flip(1, 2, "classifier"):
            cid, back, par = c.pick(TCLS if torchy else SKCLS, "cls")
            m["params"].update(classifier_id=cid, classifier_backend=back, classifier_params=copy.deepcopy(par))
    m["device"] = {"device": "cpu", "dtype": "float32"}
    seed = c.pick([1, 0, 7, 123], "seed")
    nc = 2 if mid in BINARY else c.pick([3, 2, 4] if broad else [3, 2], "classes")
    opts = {"n_samples": c.pick([40, 32, 48], "n"), "n_features": c.pick([4, 6], "nf"), "n_classes": nc, "seed": c.choose(3, "dsseed")}
    if c.flip(1, 3, "noofficial"):
        opts["official_test"] = False
    cfg = {
        "run": {"name": name, "seed": seed, "output_dir": "out", "fail_fast": c.flip(1, 2, "fail_fast")},
        "dataset": {"id": "toy", "options": opts, "download": True, "cache_dir": "cache/datasets"},
        "sampling": {"seed": seed, "plan": {"split": gen_split(c), "labeling": gen_labeling(c), "imbalance": {"kind": "none"},
                                            "policy": {"respect_official_test": True, "allow_override_official": False}}},
        "preprocess": {"seed": seed, "fit_on": c.pick(["train_labeled", "train"], "fit_on"), "cache": c.flip(1, 2, "pcache"),
                       "cache_dir": "cache/preprocess", "plan": {"output_key": "features.X", "steps": gen_pre(c, torchy)}},
        "method": m,
        "evaluation": {"split_for_model_selection": "val", "report_splits": c.pick([["val", "test"], ["train", "val", "test"], ["val"]], "splits"),
                       "metrics": c.pick([["accuracy", "macro_f1"], ["accuracy"], ["balanced_accuracy", "accuracy", "macro_f1"]], "metrics")},
    }
    if broad and c.flip(1, 5, "imbalance"):
        cfg["sampling"]["plan"]["imbalance"] = c.pick([{"kind": "long_tail", "alpha": 0.6, "min_per_class": 2}, {"kind": "subsample_max_per_class", "max_per_class": 8},
                                                       {"kind": "subsample_max_per_class", "max_per_class": 2, "apply_to": "labeled"}], "imb").copy()
    if broad and c.flip(1, 6, "policy"):
        cfg["sampling"]["plan"]["policy"] = {"respect_official_test": False, "allow_override_official": False}
    if c.flip(1, 6, "null-seeds"):
        cfg["sampling"]["seed"] = None
        cfg["preprocess"]["seed"] = None
    if "G" in needs:
        cfg["graph"] = {"enabled": True, "seed": seed, "cache": c.flip(1, 2, "gcache"), "cache_dir": "cache/graphs", "spec": gen_graph_spec(c, mid)}
    if "A" in needs:
        cfg["augmentation"] = copy.deepcopy(AUG)
        cfg["augmentation"]["seed"] = c.pick([seed, None, 17], "augseed")
        if broad:
            for w in ("weak", "strong"):
                if c.flip(1, 2, w):
                    cfg["augmentation"][w] = {"steps": copy.deepcopy(c.pick(OPS, "ops"))}
    if "V" in needs:
        cfg["views"] = {"seed": seed, "plan": gen_view_plan(c, opts["n_features"])}
    if c.flip(1, 8, "limits"):
        cfg["limits"] = {"max_train_samples": 24, "max_method_batch_size": 8}
    if search if search is not None else c.flip(1, 5, "search"):
        cfg["search"] = gen_search(c, m, cfg)
    return cfg


def space_for(c, m):
    p = m["params"]
    if "classifier_id" in p:
        sp = {"max_iter": [1, 2, 3]} if "max_iter" in p else {"classifier_id": ["knn", "gaussian_nb"]}
        if m["id"] in ("pseudo_label", "self_training"):
            sp["confidence_threshold"] = [0.5, 0.9] if c.flip(1, 2, "grid2") else [0.8, 0.4, 0.99]
        return sp
    if "alpha" in p and m["kind"] == "transductive":
        return {"alpha": [0.2, 0.9, 0.5]}
    if "lr" in p:
        return {"lr": [0.01, 0.1], "weight_decay": [0.0, 0.01]}
    if "batch_size" in p and c.flip(1, 2, "batch"):
        return {"batch_size": [4, 64] if c.flip(1, 2, "grid2") else [16, 32, 2]}
    if "lambda_u" in p:
        return {"lambda_u": [0.0, 1.0, 2.0]}
    if "max_iter" in p:
        return {"max_iter": [1, 4, 2]}
    return None


def gen_search(c, m, cfg):
    sp = space_for(c, m)
    if sp is None:
        m["id"], m["params"], m["kind"] = "pseudo_label", {"classifier_id": "knn", "classifier_backend": "numpy", "max_iter": 2, "confidence_threshold": 0.6}, "inductive"
        m.pop("model", None)
        for k in ("graph", "augmentation", "views"):
            cfg.pop(k, None)
        cfg["preprocess"]["plan"]["steps"] = copy.deepcopy(PRE[0])
        sp = {"max_iter": [1, 3], "confidence_threshold": [0.5, 0.9]}
    kind = c.pick(["grid", "random"], "search")
    space = {k: v for k, v in sp.items()}
    if kind == "random" and c.flip(1, 2, "dist"):
        for k, v in space.items():
            if all(isinstance(x, float) for x in v):
                space[k] = {"dist": "uniform", "low": min(v), "high": max(v)}
            elif all(isinstance(x, int) for x in v):
                space[k] = {"dist": "randint", "low": min(v), "high": max(v) + 1}
            break
    return {"enabled": True, "kind": kind, "seed": c.pick([5, 6], "sseed"), "n_trials": 2 + c.choose(3, "ntrials"),
            "repeats": c.pick([1, 2], "repeats"),
            "objective": {"split": "val", "metric": cfg["evaluation"]["metrics"][0], "direction": c.pick(["maximize", "minimize"], "direction"),
                          "aggregate": "mean"}, "space": {"method": {"params": space}}}


def failing(c, cfg):
    """A change that makes the experiment fail, for every seed or (fixed labels) for some seeds only."""
    k = c.choose(4, "how-fail")
    if k == 0:
        cfg["dataset"]["options"].update(n_classes=3)
        cfg["method"] = {"kind": "transductive", "id": "lazy_random_walk", "params": {}, "device": {"device": "cpu", "dtype": "float32"}}
        cfg["graph"] = {"enabled": True, "seed": 1, "cache": False, "spec": copy.deepcopy(GRAPHS[0])}
        cfg["preprocess"]["plan"]["steps"] = copy.deepcopy(PRE[0])
        for d in ("augmentation", "views", "search"):
            cfg.pop(d, None)
    elif k == 1:
        cfg["evaluation"]["metrics"] = ["accuracy", "no_such_metric"]
        cfg.pop("search", None)
    elif k == 2:
        cfg["dataset"]["id"] = "toy_missing"
    else:
        cfg["sampling"]["plan"]["split"]["kind"] = "holdout"
        for d in ("k", "fold"):
            cfg["sampling"]["plan"]["split"].pop(d, None)
        cfg["sampling"]["plan"]["labeling"]["fixed_indices"] = c.pick([[0], [1, 3], [2, 0]], "fixed")
    return cfg


def for_seed(cfg, seed):
    """What a seed sweep is documented to run for one seed."""
    cfg = copy.deepcopy(cfg)
    cfg["run"].pop("seeds", None)
    cfg["run"]["seed"] = seed
    cfg["run"]["name"] = f"{cfg['run']['name']}-seed{seed}"
    for k in SEEDED:
        if isinstance(cfg.get(k), dict):
            cfg[k]["seed"] = seed
    return cfg


# ------------------------------------------------------------------ operations


def _proba(m):
    """Predictions of the last fitted model on everything it can predict."""
    import numpy as np

    kind, method, x = m
    try:
        out = method.predict_proba(x)
    except Exception:
        return None
    if hasattr(out, "detach"):
        out = out.detach().cpu().numpy()
    out = np.asarray(out)
    return (str(out.dtype), out.shape, hashlib.sha256(np.ascontiguousarray(out).tobytes()).hexdigest()[:20])


def watch(fitted):
    """Keep the fitted models (for their predictions) without changing what the run does."""
    from bench.orchestrators import method_inductive as mi
    from bench.orchestrators import method_transductive as mt

    a, b = mi.run, mt.run

    def ind(pre, *x, **k):
        r = a(pre, *x, **k)
        fitted.append(("i", r[0], pre.dataset.train.X))
        return r

    def tra(*x, **k):
        r = b(*x, **k)
        fitted.append(("t", r[0], r[1]))
        return r

    mi.run, mt.run = ind, tra

    def undo():
        mi.run, mt.run = a, b

    return undo


def one_run(rt, where, fname, num_runs=None):
    from bench.main import run_experiment

    at = os.path.join(rt.root, where)
    os.chdir(at)
    os.environ["MODSSC_CACHE_ROOT"] = os.path.join(at, "cache")
    fitted = []
    undo = watch(fitted)
    try:
        out = ("rc", run_experiment(Path(fname), num_runs=num_runs))
    except Exception as e:
        out = ("err", type(e).__name__, str(e).replace(rt.root, "<root>")[:300], tb_tail(e))
    finally:
        undo()
    return out + ((_proba(fitted[-1]) if fitted else None),)


def op_bench(rt, where, fname, num_runs=None, before=()):
    import random

    import numpy as np

    for w, f in before:
        one_run(rt, w, f)
        random.random()
        np.random.random(5)
    return one_run(rt, where, fname, num_runs)


def op_peer(rt, where, fname):
    """The same in the other interpreter, with what it wrote."""
    out = one_run(rt, where, fname)
    return out


def write_cfg(sim, where, fname, cfg):
    import yaml

    d = os.path.join(sim.root, where)
    os.makedirs(d, exist_ok=True)
    project(d)
    with open(os.path.join(d, fname), "w") as f:
        yaml.safe_dump(cfg, f, sort_keys=False)


def project(d):
    """Experiments are started from the project directory: they read its optional dependencies."""
    import shutil

    from ..runner import REPO

    if not os.path.exists(os.path.join(d, "pyproject.toml")):
        shutil.copyfile(os.path.join(REPO, "pyproject.toml"), os.path.join(d, "pyproject.toml"))


def brief(cfg):
    m = cfg["method"]
    return (f"{m['id']} {m['params']} data={cfg['dataset']['options']} split={cfg['sampling']['plan']['split']} "
            f"labeling={cfg['sampling']['plan']['labeling']} pre={[s['id'] for s in cfg['preprocess']['plan']['steps']]} "
            f"graph={(cfg.get('graph') or {}).get('spec', {}).get('metric')} search={(cfg.get('search') or {}).get('kind')} seed={cfg['run']['seed']}")


# ------------------------------------------------------------------ reading results

DATED = {"started_at", "finished_at", "aggregated_at", "created_at", "timestamp"}


def _norm(x, at):
    if isinstance(x, dict):
        return {k: _norm(v, at) for k, v in x.items() if k not in DATED}
    if isinstance(x, list):
        return [_norm(v, at) for v in x]
    if isinstance(x, str):
        return x.replace(at, "<at>")
    if isinstance(x, float) and math.isnan(x):
        return "nan"
    return x


class Run:
    """One run directory as found on disk."""

    def __init__(self, sim, where, rel):
        self.rel = rel
        self.dir = d = os.path.join(sim.root, where, "out", rel)
        self.files = {}
        for b, ds, fs in os.walk(d):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(b, f)
                with open(p, "rb") as h:
                    self.files[os.path.relpath(p, d)] = h.read()
        at = os.path.join(sim.root, where)
        self.json, self.bad = None, None
        if "run.json" in self.files:
            try:
                self.raw = json.loads(self.files["run.json"])
                self.json = _norm(self.raw, at)
            except ValueError as e:
                self.bad = f"run.json is not whole: {e}"
        self.config = None
        if "config.yaml" in self.files:
            import yaml

            try:
                self.config = yaml.safe_load(self.files["config.yaml"])
                if not isinstance(self.config, dict) or "method" not in self.config:
                    self.bad = self.bad or f"config.yaml is not whole ({len(self.files['config.yaml'])} bytes)"
            except yaml.YAMLError:
                self.bad = self.bad or "config.yaml is not whole"
        self.trials = None
        if "hpo/trials.jsonl" in self.files:
            self.trials = self.files["hpo/trials.jsonl"].decode()

    @property
    def owner(self):
        return self.json["run"].get("config_path") if self.json else None

    def status(self):
        return self.json["run"]["status"] if self.json else None

    def digest(self):
        """Everything but dates, directory names and cache locations."""
        j = copy.deepcopy(self.json)
        conf = copy.deepcopy(self.config)
        if "-sweep-" in self.rel:
            # the dated sweep directory is part of a sweep run's configuration
            if j:
                j["hashes"] = None
                j["run"].pop("run_id", None)
                j["config"]["run"].pop("output_dir", None)
            if conf:
                conf["run"].pop("output_dir", None)
        if j:
            j["run"].pop("config_path", None)
            (j.get("artifacts") or {}).get("preprocess", {}).pop("cache_dir", None)
        others = {k: hashlib.sha256(v).hexdigest()[:12] for k, v in self.files.items() if k not in ("run.json", "error.txt", "config.yaml")}
        return {"run.json": j, "config.yaml": conf, "files": others, "error.txt": "error.txt" in self.files}


def outputs(sim, where):
    """(runs, sweeps): run directories below out/, and aggregate files by sweep directory."""
    top = os.path.join(sim.root, where, "out")
    runs, sweeps = [], {}
    if not os.path.isdir(top):
        return runs, sweeps
    for n in sorted(os.listdir(top)):
        d = os.path.join(top, n)
        if "-sweep-" in n:
            sweeps[n] = d
            runs += [Run(sim, where, os.path.join(n, k)) for k in sorted(os.listdir(d)) if os.path.isdir(os.path.join(d, k))]
        elif os.path.isdir(d):
            runs.append(Run(sim, where, n))
    return runs, sweeps


def aggregate(sim, where, d):
    p = os.path.join(d, "aggregate.json")
    if not os.path.exists(p):
        return None
    with open(p, "rb") as h:
        b = h.read()
    try:
        return _norm(json.loads(b), os.path.join(sim.root, where))
    except ValueError as e:
        raise Violation("record-torn", f"{os.path.basename(d)}/aggregate.json is not whole: {e}") from None


def all_bytes(sim, where):
    out = {}
    for b, ds, fs in os.walk(os.path.join(sim.root, where, "out")):
        for f in fs:
            p = os.path.join(b, f)
            with open(p, "rb") as h:
                out[os.path.relpath(p, os.path.join(sim.root, where))] = h.read()
    return out


WARM = ("pseudo_label", "supervised", "fixmatch", "gcn", "label_propagation", "tsvm", "trinet", "planetoid")


class BenchScenario(Scenario):
    real = ["bench.main, its context, schema, limits and all orchestrators", "modssc data loader, sampling, preprocessing, views, graphs, "
            "augmentation, methods, classifiers, evaluation and HPO on the toy dataset", "numpy, scikit-learn and torch on one thread",
            "real file system below a scratch directory"]
    stub = ["clock", "entropy", "the git subprocess (fixed revision)"]
    assumptions = ["a crash is a killed process: what was handed to the kernel survives, user-space buffers are lost"]
    light = True

    def preload(self):
        import importlib
        import logging
        import platform
        import subprocess
        import tempfile

        import re

        import torch

        seam.NAME_SUB = (re.compile(r"-[0-9a-f]{20}-"), "-id-")

        torch.set_num_threads(1)
        import bench.main  # noqa: F401

        platform.platform()
        platform.uname().processor
        real = subprocess.check_output

        def fake(cmd, *a, **k):
            if isinstance(cmd, list) and cmd and cmd[0] == "git":
                return "0" * 40 + "\n"
            return real(cmd, *a, **k)

        subprocess.check_output = fake
        logging.disable(logging.CRITICAL)
        # a throw-away child runs a few experiments; what it imports is imported here once for all workers
        with tempfile.TemporaryDirectory(prefix="vsimwarm") as tmp:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    if not os.environ.get("VSIM_DEBUG"):
                        dn = os.open("/dev/null", os.O_RDWR)
                        os.dup2(dn, 1)
                        os.dup2(dn, 2)
                    self.warm(tmp)
                    names = "\n".join(sys.modules)
                    with os.fdopen(w, "w") as f:
                        f.write(names)
                finally:
                    os._exit(0)
            os.close(w)
            with os.fdopen(r) as f:
                names = f.read().split("\n")
            os.waitpid(pid, 0)
        for n in names:
            if n and n not in sys.modules and not n.startswith("__"):
                try:
                    importlib.import_module(n)
                except BaseException:
                    pass

    def warm(self, tmp):
        import yaml

        class First:
            def choose(self, n, label=""):
                return 0

            def pick(self, seq, label=""):
                return seq[0]

            def flip(self, *a):
                return False

            def weighted(self, w, label=""):
                return 0

        class Rt:
            root = tmp

        os.makedirs(os.path.join(tmp, "w"))
        project(os.path.join(tmp, "w"))
        jobs = [("light", m, p) for m in LIGHT for p in LIGHT[m]] + [("deep", m, None) for m in (METHODS if not self.light else ())]
        for kind, m, p in jobs:
            class Pick(First):
                def pick(self, seq, label=""):
                    return m if label == "method" else p if label == "params" else seq[0]

            cfg = gen_cfg(Pick(), light=kind == "light", search=False)
            with open(os.path.join(tmp, "w", "c.yaml"), "w") as f:
                yaml.safe_dump(cfg, f)
            one_run(Rt, "w", "c.yaml")

    def val(self, p, when):
        kind, val = p.result
        if kind == "hang":
            raise Violation("stuck", f"{when}: {val}")
        if kind != "ok":
            raise AssertionError(f"harness: {when}: {p.result}")
        return val

    def reference(self, sim, cfg, where, num_runs=None):
        """The experiment alone, in the place where the others run (hashes cover paths): outcome, run directories, sweeps."""
        write_cfg(sim, "w", "c.yaml", cfg)
        v = self.val(sim.run_one(sim.spawn(where, op_bench, "w", "c.yaml", num_runs)), where)
        runs, sweeps = outputs(sim, "w")
        aggs = [agg_norm(sim, "w", s, d, runs) for s, d in sweeps.items()]
        os.rename(os.path.join(sim.root, "w"), os.path.join(sim.root, where))
        return v, runs, aggs

    def ref_single(self, sim, cfg, where):
        v, runs, _ = self.reference(sim, cfg, where)
        if len(runs) != 1:
            raise Violation("run-lost", f"one run of {brief(cfg)} ({v}) left {len(runs)} run directories")
        self.coherent(runs[0], v, cfg)
        return v, runs[0]

    def coherent(self, run, v, cfg, what="the run"):
        """The record of a run that nothing disturbed agrees with its outcome."""
        if run.bad:
            raise Violation("record-torn", f"{what}: {run.bad}")
        if run.json is None:
            raise Violation("record-missing", f"{what} ({v}) has no run.json: {sorted(run.files)}")
        ok = v[0] == "rc" and v[1] == 0
        if (run.status() == "success") != ok:
            raise Violation("record-wrong", f"{what} ended with {v} but run.json says {run.status()!r}")
        j = run.json
        if ok:
            if j["error"] is not None or j["run"]["error_code"] is not None:
                raise Violation("record-wrong", f"{what} succeeded but records the error {j['error']!r}")
            for s in cfg["evaluation"]["report_splits"]:
                for m in cfg["evaluation"]["metrics"]:
                    x = (j["metrics"] or {}).get(s, {}).get(m)
                    if not isinstance(x, (int, float)) and x != "nan":
                        raise Violation("record-wrong", f"{what} succeeded without the metric {m} of {s}: {j['metrics']}")
        else:
            if not j["error"] or not j["run"]["error_code"] or "error.txt" not in run.files:
                raise Violation("record-wrong", f"{what} failed ({v}) without error record: {j['error']!r} {j['run']['error_code']!r} {sorted(run.files)}")
            if j["metrics"]:
                raise Violation("record-wrong", f"{what} failed with metrics {j['metrics']}")
            ff = cfg["run"].get("fail_fast", True)
            if (v[0] == "err") != bool(ff):
                raise Violation("record-wrong", f"{what} failed with fail_fast={ff} and ended with {v}")


def agg_norm(sim, where, name, d, runs):
    """A sweep's aggregate with its links to run directories checked and removed."""
    a = aggregate(sim, where, d)
    if a is None:
        return None
    a = copy.deepcopy(a)
    a["sweep"].pop("output_dir", None)
    owner = a["sweep"].pop("config_path", None)
    by = {os.path.join("<at>", "out", r.rel): r for r in runs}
    for e in a["runs"]:
        r = by.get(e.pop("run_dir"))
        j = e.pop("run_json")
        if r is None or not r.rel.startswith(name + os.sep) or r.json is None or not j.endswith("run.json"):
            raise Violation("aggregate-wrong", f"{name}/aggregate.json lists a run that is not one of the sweep: {j}")
        if r.owner != owner:
            raise Violation("aggregate-wrong", f"{name}/aggregate.json of {owner} lists a run of {r.owner}: {r.rel}")
        if (e["status"], e["seed"], e["metrics"], e["run_id"], e["error"]) != (
                r.status(), r.json["run"]["seed"], r.json["metrics"], r.json["run"]["run_id"], r.json["error"]):
            raise Violation("aggregate-wrong", f"{name}/aggregate.json disagrees with {r.rel}/run.json: {e} / {r.json['run']} {r.json['metrics']}")
        e.pop("run_id")
    return a, owner


def key(cfg):
    return json.dumps(cfg, sort_keys=True)


class B01(BenchScenario):
    prop = "B01"
    rule = ("two or three experiments (single, with hyper-parameter search, or seed sweeps; identical, same name, or different) started with "
            "one output directory, interleaved by a seeded scheduler around their directory and report steps, after up to two finished "
            "ones, with skewed clocks, stalls and one optional crash; non-trivial: a preemption happened")
    quick_runs = 200
    thorough_runs = 12000
    must_reach = ("same_second", "identical", "sweep", "search", "overlap", "killed")

    def run(self, sim):
        c = sim.c
        probes = {}
        base = gen_cfg(c, light=True, search=c.flip(1, 3, "search"))
        base["dataset"]["options"]["n_samples"] = 32
        base["run"]["fail_fast"] = False
        n = 2 + c.choose(2, "n")
        early = 1 + c.choose(2, "early")  # the dataset is cached before processes meet (a busy entry is an error by design)
        cfgs = []
        for i in range(n + early):
            cfg = copy.deepcopy(base)
            w = c.weighted([4, 2, 1, 2], "variant")
            if w == 1:
                cfg["run"]["seed"] += 1
            elif w == 2:
                cfg["run"]["name"] = "other"
            elif w == 3:
                cfg["run"]["seeds"] = c.pick([[1, 2], [3]], "seeds")
                cfg["run"].pop("seed") if False else None
                probes["sweep"] = 1
            cfgs.append(cfg)
        refs = {}
        for cfg in cfgs:
            k = key(cfg)
            if k not in refs:
                where = f"ref{len(refs)}"
                v, runs, aggs = self.reference(sim, cfg, where)
                for r in runs:
                    if r.bad or r.json is None:
                        raise Violation("record-missing", f"a run alone left {sorted(r.files)} {r.bad}")
                refs[k] = (v, sorted(json.dumps(r.digest(), sort_keys=True, default=str) for r in runs), [a and a[0] for a in aggs])
        if len(refs) < len(cfgs):
            probes["identical"] = 1
        if base.get("search"):
            probes["search"] = 1
        sim.trace.append("experiment: " + brief(base))
        for i in range(early):
            write_cfg(sim, "w", f"e{i}.yaml", cfgs[n + i])
            v = self.val(sim.run_one(sim.spawn(f"early{i}", op_bench, "w", f"e{i}.yaml")), "an earlier run")
            self.owned(sim, f"e{i}.yaml", v, cfgs[n + i], refs)
        old = all_bytes(sim, "w")
        procs = []
        for i in range(n):
            write_cfg(sim, "w", f"c{i}.yaml", cfgs[i])
            procs.append(sim.spawn(f"run{i}", op_bench, "w", f"c{i}.yaml", skew=c.pick([0.0, 0.0, 0.0, 1.0, -3600.0], "skew")))
        crash = c.flip(1, 4, "crash")
        s0 = sim.switches
        if c.flip(2, 3, "aim"):
            # bring the processes to a directory or report step before they take turns
            for p in procs:
                if c.flip(4, 5, "advance"):
                    sim.advance(p, 1 + c.choose(c.pick([2, 6], "adv"), "nth"), c.pick([("mkdir",), ("mkdir",), ("rename",), ("open-w", "open"), ("stat",)], "at"))
        sim.run_many(procs, faults=("crash",) if crash else (), max_faults=1 if crash else 0, max_switch=c.pick([6, 12], "max-switch"),
                     hint=c.pick([60, 250], "hint"), stalls_left=1 if c.flip(1, 3, "stalls") else 0)
        if sim.switches > s0:
            probes["overlap"] = 1
        new = all_bytes(sim, "w")
        for f, b in old.items():
            if new.get(f) != b:
                raise Violation("overwritten", f"{f} of a finished run was {'removed' if f not in new else 'changed'} by a later run")
        whole = True
        for i, p in enumerate(procs):
            if p.state == "crashed":
                probes["killed"] = 1
                whole = False
                continue
            v = self.val(p, f"run{i}")
            self.owned(sim, f"c{i}.yaml", v, cfgs[i], refs)
        runs, sweeps = outputs(sim, "w")
        stamps = {}
        for r in runs:
            if r.json and r.json["run"].get("config_path", "").startswith("c"):
                stamps.setdefault(r.raw["run"]["started_at"][:19], set()).add(r.owner)
        if any(len(x) > 1 for x in stamps.values()):
            probes["same_second"] = 1
        if whole:
            want = sum(len(refs[key(cfg)][1]) for cfg in cfgs)
            if len(runs) != want:
                raise Violation("run-lost", f"{n + early} experiments with {want} runs left {len(runs)} run directories: {[r.rel for r in runs]}")
            wants = sum(len(refs[key(cfg)][2]) for cfg in cfgs)
            if len(sweeps) != wants:
                raise Violation("run-lost", f"{wants} sweeps left {len(sweeps)} sweep directories: {sorted(sweeps)}")
        return {"nontrivial": sim.switches > s0, "kind": f"{n}{'c' if crash else ''}", "probes": probes, "key": key(base)[:2000] + str(n)}

    def owned(self, sim, fname, v, cfg, refs):
        """What the finished experiment with this configuration file left is what it leaves alone."""
        rv, rruns, raggs = refs[key(cfg)]
        what = f"the experiment {fname}"
        if (v[0], v[1]) != (rv[0], rv[1]):
            raise Violation("run-disturbed", f"{what} ends with {v[:4]}; alone it ends with {rv[:4]}")
        runs, sweeps = outputs(sim, "w")
        mine = [r for r in runs if r.owner == fname]
        for r in mine:
            if r.bad:
                raise Violation("record-torn", f"{what}: {r.bad}")
        got = sorted(json.dumps(r.digest(), sort_keys=True, default=str) for r in mine)
        if len(got) != len(rruns):
            raise Violation("run-lost", f"{what} left {len(got)} run records of its own; alone it leaves {len(rruns)}")
        if got != rruns:
            for a, b in zip(rruns, got):
                if a != b:
                    raise Violation("run-differs", f"{what} left another record than alone: {diff(canon(json.loads(a)), canon(json.loads(b)))}")
        aggs = [agg_norm(sim, "w", s, d, runs) for s, d in sweeps.items()]
        aggs = [a[0] for a in aggs if a and a[1] == fname]
        if len(aggs) != len(raggs):
            raise Violation("run-lost", f"{what} left {len(aggs)} aggregates; alone it leaves {len(raggs)}")
        if aggs != raggs:
            raise Violation("run-differs", f"{what} left another aggregate than alone: {diff(canon(raggs), canon(aggs))}")



HURT = ("crash", "torn", "enospc", "errno", "interrupt", "memory")


def is_sweep(cfg):
    return bool(cfg["run"].get("seeds"))


class B02(BenchScenario):
    prop = "B02"
    rule = ("one to three experiments (single, failing by configuration, with search, or seed sweeps) run again and again in one project "
            "directory while a killed process, a torn or failed write, a full disk, an interrupt or a failed allocation hits a chosen "
            "step of any of them (half of the time a step on its own output); everything on disk is read after every run, and at the "
            "end every experiment runs undisturbed; non-trivial: a fault took effect")
    quick_runs = 300
    thorough_runs = 14000
    must_reach = ("killed", "failed", "fault-recorded", "survived", "sweep", "search", "again", "no-traceback")

    def run(self, sim):
        c = sim.c
        probes = {}
        base = gen_cfg(c, light=True)
        base["dataset"]["options"]["n_samples"] = 32
        cfgs = [base]
        for _ in range(c.choose(3, "more")):
            cfg = copy.deepcopy(base)
            w = c.choose(5, "variant")
            if w in (1, 4):
                failing(c, cfg)
            elif w == 2:
                cfg["run"]["seeds"] = [cfg["run"]["seed"], 3][: 1 + c.choose(2, "nseeds")]
                probes["sweep"] = 1
            elif w == 3:
                cfg["run"]["seed"] += 1
            else:
                cfg["run"]["name"] = "other"
            cfgs.append(cfg)
        if c.flip(1, 8, "all-fail"):
            failing(c, cfgs[0])
        refs = []
        for i, cfg in enumerate(cfgs):
            v, runs, aggs = self.reference(sim, cfg, f"ref{i}")
            if not is_sweep(cfg):
                if len(runs) != 1:
                    raise Violation("run-lost", f"one run of {brief(cfg)} ({v}) left {len(runs)} run directories")
                self.coherent(runs[0], v, cfg)
            if v[:2] != ("rc", 0):
                probes["failed"] = 1
            refs.append((v, runs, aggs))
            if cfg.get("search"):
                probes["search"] = 1
            sim.trace.append(f"experiment {i}: {brief(cfg)} -> {v[:2]}")
        for i, cfg in enumerate(cfgs):
            write_cfg(sim, "w", f"c{i}.yaml", cfg)
        hurt = False
        for j in range(1 + c.choose(4, "nops")):
            i = c.choose(len(cfgs), "which")
            fk = {}
            if c.flip(4, 5, "faulty"):
                at = c.weighted([4, 4, 2], "aim")
                only = "w/out/*" + c.pick(["error.txt", "run.json*", "config.yaml*", "aggregate.json*", "trials.jsonl"], "file") if at == 2 else "w/out/*"
                fk = dict(faults=HURT, max_faults=1 + c.choose(2, "nfaults"), hint=c.pick([[30, 8, 120], [12, 30], [2, 5]][at], "hint"),
                          until=only if at else None)
            hurt |= self.step(sim, f"r{j}", i, cfgs, refs, fk, probes)
        for i in range(len(cfgs)):
            self.step(sim, f"last{i}", i, cfgs, refs, {}, probes)
            probes["again"] = 1
        return {"nontrivial": hurt, "kind": f"{len(cfgs)}", "probes": probes, "key": json.dumps(cfgs, sort_keys=True)[:3000]}

    def step(self, sim, name, i, cfgs, refs, fk, probes):
        cfg, (rv, rruns, raggs) = cfgs[i], refs[i]
        old = all_bytes(sim, "w")
        f0, h0 = sum(sim.fired.values()), len(sim.hits)
        p = sim.run_one(sim.spawn(name, op_bench, "w", f"c{i}.yaml"), **fk)
        hit = p.state == "crashed" or sum(sim.fired.values()) > f0
        sim.trace.append(f"{name}: experiment {i} -> {p.state if p.state == 'crashed' else p.result[0] if p.result[0] != 'ok' else p.result[1][:2]}")
        new = all_bytes(sim, "w")
        for f, b in old.items():
            if new.get(f) != b:
                raise Violation("overwritten", f"{f} of an earlier run was {'removed' if f not in new else 'changed'} by {name}")
        tops = {f.split(os.sep)[1] for f in new} - {f.split(os.sep)[1] for f in old}
        if len(tops) > 1:
            raise Violation("run-lost", f"{name} wrote into several new directories: {sorted(tops)}")
        runs, sweeps = outputs(sim, "w")
        mine = [r for r in runs if r.rel.split(os.sep)[0] in tops and r.files]
        if p.state == "crashed":
            probes["killed"] = 1
            v = None
        elif p.result[0] == "ok":
            v = p.result[1]
        elif hit:
            v = ("err", p.result[1][0] if p.result[0] == "raise" else p.result[0])
            if p.result[0] == "hang":
                raise Violation("stuck", f"{name}: {p.result[1]}")
        else:
            v = self.val(p, name)
        what = f"{name}, experiment {i} ({'a fault hit it' if hit else 'not disturbed'}, it {'was killed' if v is None else 'ended with ' + repr(v[:4])})"
        want = {}
        for r in rruns:
            want.setdefault(r.json["run"]["name"], r)
        for r in mine:
            if r.bad:
                raise Violation("record-torn", f"{what}: {r.bad}")
            if r.config is not None:
                self.config_ok(r, cfg, rruns, what)
            if r.json is None:
                continue
            if r.config is None:
                raise Violation("record-missing", f"{what} has a run.json but no config.yaml")
            ref = want.get(r.json["run"]["name"])
            if ref is None:
                raise Violation("record-wrong", f"{what} left a record of {r.json['run']['name']!r}, which it does not run")
            if r.status() == ref.status() == "success" or not hit:
                a, b = ref.digest(), r.digest()
                if hit:
                    # temporary files of a killed or failed writer may remain; what the record says must be right
                    b["files"] = {k: x for k, x in b["files"].items() if k in a["files"]}
                if canon(a) != canon(b):
                    raise Violation("record-wrong", f"{what} left another record than undisturbed: {diff(canon(a), canon(b))}")
                if hit and v is not None and v[:2] == ("rc", 0):
                    probes["survived"] = 1
            elif r.status() == "success":
                raise Violation("record-wrong", f"{what} is recorded as a success; undisturbed it fails")
            else:
                if r.status() != "failed" or not r.json["error"] or not r.json["run"]["error_code"] or r.json["metrics"] and not hit:
                    raise Violation("record-wrong", f"{what} has an incoherent failure record: {r.status()} {r.json['error']!r} {r.json['run']['error_code']!r}")
                if ref.status() == "success":
                    probes["fault-recorded"] = 1
        done = [r for r in mine if r.status() == "success"]
        if v is not None and v[:2] == ("rc", 0) and len(done) != len(rruns):
            raise Violation("record-missing", f"{what} reports success with {len(done)} of {len(rruns)} successful run records")
        if v is not None and v[0] == "rc" and v[1] != 0 and not is_sweep(cfg) and (len(mine) != 1 or mine[0].status() != "failed"):
            raise Violation("record-missing", f"{what} reports a failed run without a failure record: {[(r.rel, r.status()) for r in mine]}")
        if hit and v is not None and not is_sweep(cfg) and all(f == "errno" and os.path.basename(q) == "error.txt" for f, q in sim.hits[h0:]):
            # the traceback beside the record is all that could not be written
            probes["no-traceback"] = 1
            if v[:2] != rv[:2] or [r.status() for r in mine] != ["failed"]:
                raise Violation("record-missing", f"{what}: only its error.txt could not be written; it left {[(r.rel, r.status()) for r in mine]} and ended "
                                f"with {v[:4]} instead of {rv[:4]}")
        if not hit:
            if v[:2] != rv[:2]:
                raise Violation("disturbed-later", f"{what}; alone it ends with {rv[:4]}")
            if len([r for r in mine if r.json]) != len(rruns):
                raise Violation("record-missing", f"{what} left {len(mine)} of {len(rruns)} run records")
        for s, d in sweeps.items():
            if s in tops:
                check_sweep(sim, "w", s, d, runs, [x for x in cfg["run"].get("seeds") or ()], v, what)
        return hit

    def config_ok(self, r, cfg, rruns, what):
        got = r.config
        miss = [k for k in cfg if k not in got]
        if miss:
            raise Violation("record-torn", f"{what}: config.yaml lacks {miss}")
        for k in cfg:
            if k in ("run", "method", "limits") or k in SEEDED and is_sweep(cfg):
                continue
            if k in ("dataset", "graph", "preprocess", "augmentation") and "limits" in cfg:
                continue
            if canon(got[k]) != canon(cfg[k]):
                raise Violation("record-wrong", f"{what}: config.yaml has another {k}: {diff(canon(cfg[k]), canon(got[k]))}")


def stats_of(entries):
    from statistics import fmean, pstdev

    vals = {}
    for e in entries:
        for s, ms in e["metrics"].items():
            for m, x in ms.items():
                if isinstance(x, (int, float)) and not isinstance(x, bool):
                    vals.setdefault(s, {}).setdefault(m, []).append(float(x))
    return {s: {m: {"count": len(x), "mean": fmean(x), "std": pstdev(x) if len(x) > 1 else 0.0, "min": min(x), "max": max(x), "values": x}
                for m, x in ms.items()} for s, ms in vals.items()}


def near(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(near(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(near(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-12)
    return a == b


def check_sweep(sim, where, name, d, runs, seeds, v, what):
    """The aggregate of one sweep, if there is one, says what the run records say and what the sweep returned."""
    mine = [r for r in runs if r.rel.startswith(name + os.sep) and r.json]
    got = agg_norm(sim, where, name, d, runs)
    if got is None:
        if v is not None and v[0] == "rc" and mine:
            raise Violation("aggregate-missing", f"{what} returned {v[1]} without aggregate.json though {len(mine)} runs are recorded")
        return None
    a = got[0]
    s, es = a["sweep"], a["runs"]
    good = [e for e in es if e["status"] == "success"]
    if s["requested_seeds"] != list(seeds) or s["requested_run_count"] != len(seeds):
        raise Violation("aggregate-wrong", f"{what}: aggregate.json says {s['requested_seeds']} were requested; it was {seeds}")
    order = [x for x in seeds]
    for e in es:
        while order and order[0] != e["seed"]:
            order.pop(0)
        if not order:
            raise Violation("aggregate-wrong", f"{what}: aggregate.json lists seeds {[e['seed'] for e in es]} for the requested {seeds}")
        order.pop(0)
    if len(mine) != len(es) and v is not None:
        raise Violation("aggregate-wrong", f"{what}: aggregate.json lists {len(es)} of {len(mine)} recorded runs")
    if (s["successful_run_count"], s["completed_run_count"]) != (len(good), len(es)):
        raise Violation("aggregate-wrong", f"{what}: aggregate.json counts {s['successful_run_count']}/{s['completed_run_count']} runs but lists {len(good)}/{len(es)}")
    if s["failed_run_count"] != len(seeds) - len(good):
        raise Violation("aggregate-wrong", f"{what}: {len(good)} of {len(seeds)} runs succeeded but aggregate.json counts {s['failed_run_count']} failures")
    st = "success" if len(good) == len(seeds) else "partial_failure" if good else "failed"
    if s["status"] != st:
        raise Violation("aggregate-wrong", f"{what}: {len(good)} of {len(seeds)} runs succeeded but aggregate.json says {s['status']!r}")
    if v is not None and v[0] == "rc" and (v[1] == 0) != (st == "success"):
        raise Violation("aggregate-wrong", f"{what} returned {v[1]} but aggregate.json says {st!r}")
    if not near(a["metrics"], stats_of(good)):
        raise Violation("aggregate-wrong", f"{what}: aggregated metrics are not those of the runs: {diff(canon(stats_of(good)), canon(a['metrics']))}")
    return a


class B03(BenchScenario):
    prop = "B03"
    rule = ("a seed sweep (run.seeds or a run count, seeds in any order) of an experiment that succeeds for all, some or no "
            "seeds, with and without fail_fast, alone or with a fault in one of its runs; every member is compared with the same "
            "experiment run alone with that seed, and the aggregate with a recomputation; non-trivial: at least two members")
    quick_runs = 200
    thorough_runs = 9000
    must_reach = ("partial", "abort", "all-ok", "all-fail", "num_runs", "fault", "lost-run")

    def run(self, sim):
        c = sim.c
        probes = {}
        cfg = gen_cfg(c, light=True, search=c.flip(1, 6, "search"))
        cfg["dataset"]["options"]["n_samples"] = 32
        how = c.choose(5, "mode")
        if how in (3, 4):
            if how == 4:
                # labels for fixed rows: only some splits have these rows in their training part
                cfg["sampling"]["plan"]["split"] = {"kind": "holdout", "val_fraction": 0.2, "test_fraction": 0.3, "stratify": False}
                cfg["sampling"]["plan"]["labeling"]["fixed_indices"] = [1 + c.choose(12, "fx"), 14 + c.choose(4, "fx2")]
                cfg["dataset"]["options"]["official_test"] = False
            else:
                failing(c, cfg)
        ff = cfg["run"]["fail_fast"] = c.flip(1, 3, "ff")
        n = 2 + c.choose(3, "n")
        num = None
        if c.flip(1, 3, "num-runs"):
            num = n
            seeds = [cfg["run"]["seed"] + k for k in range(n)]
            if c.flip(1, 3, "both"):
                cfg["run"]["seeds"] = [77]
            probes["num_runs"] = 1
        else:
            left = [0, 5, 1, 2, 9, 40, 41]
            seeds = [left.pop(c.choose(len(left), "seed")) for _ in range(n)]
            cfg["run"]["seeds"] = seeds
        refs = {}
        for s in seeds:
            if s not in refs:
                v, runs, _ = self.reference(sim, for_seed(cfg, s), f"ref{len(refs)}")
                if len(runs) != 1:
                    raise Violation("run-lost", f"one run of {brief(cfg)} ({v}) left {len(runs)} run directories")
                self.coherent(runs[0], v, for_seed(cfg, s))
                refs[s] = runs[0]
        sim.trace.append(f"sweep over {seeds}: {brief(cfg)} -> {[refs[s].status() for s in seeds]}")
        write_cfg(sim, "w", "c.yaml", cfg)
        fk = {}
        if c.flip(2, 5, "faulty"):
            if c.flip(2, 3, "own-output"):
                fk = dict(faults=("errno", "enospc", "memory", "crash", "torn"), max_faults=1, hint=c.pick([9, 25], "hint"), until="w/out/*")
            else:
                fk = dict(faults=("errno", "memory", "crash"), max_faults=1, hint=c.pick([40, 200], "hint"))
        p = sim.spawn("sweep", op_bench, "w", "c.yaml", num)
        p = sim.run_one(p, **fk)
        hit = p.state == "crashed" or bool(sum(sim.fired.values()))
        if hit:
            probes["fault"] = 1
        v = None if p.state == "crashed" else self.val(p, "the sweep")
        runs, sweeps = outputs(sim, "w")
        what = f"the sweep over {seeds} (fail_fast={ff}{', a fault hit it' if hit else ''}, {'killed' if v is None else 'ended with ' + repr(v[:4])})"
        if len(sweeps) > 1 or any("-sweep-" not in r.rel for r in runs):
            raise Violation("run-lost", f"{what} left {[r.rel for r in runs]}")
        mine = [r for r in runs if r.json]
        for r in runs:
            if r.bad:
                raise Violation("record-torn", f"{what}: {r.bad}")
        for r in mine:
            s = r.raw["run"]["seed"]
            if s not in refs:
                raise Violation("sweep-member", f"{what} ran the seed {s}")
            if hit and r.status() != "success":
                continue
            a, b = self.member(refs[s]), self.member(r)
            if canon(a) != canon(b):
                raise Violation("sweep-member", f"{what}: its run for seed {s} is not what the experiment does alone with that seed: {diff(canon(a), canon(b))}")
        if not hit:
            want = list(seeds)
            bad = [k for k, s in enumerate(seeds) if refs[s].status() != "success"]
            if ff and bad:
                want = seeds[: bad[0] + 1]
                probes["abort"] = 1
            got = [r.raw["run"]["seed"] for r in mine]
            if sorted(got) != sorted(want):
                raise Violation("run-lost", f"{what} left runs for {sorted(got)} instead of {sorted(want)}")
            if ff and bad:
                if v[0] != "err":
                    raise Violation("sweep-outcome", f"{what} has a failing run and does not raise")
            elif v[:2] != ("rc", 1 if bad else 0):
                raise Violation("sweep-outcome", f"{what}: {len(bad)} runs fail alone")
            probes["all-ok" if not bad else "all-fail" if len(bad) == n else "partial"] = 1
        for s, d in sweeps.items():
            a = check_sweep(sim, "w", s, d, runs, seeds, v, what)
            if a and hit and len(a["runs"]) < n:
                probes["lost-run"] = 1
            if a is None and not hit and not (ff and bad) and mine:
                raise Violation("aggregate-missing", f"{what} left no aggregate.json")
        return {"nontrivial": n > 1, "kind": f"{n}{'n' if num else 's'}{'h' if hit else ''}", "probes": probes, "key": key(cfg)[:2000] + str(seeds)}

    def member(self, r):
        d = r.digest()
        j, conf = d["run.json"], d["config.yaml"]
        if j:
            j["hashes"] = None
            j["run"].pop("run_id", None)
            j["config"]["run"].pop("output_dir", None)
            j["config"]["run"].pop("seeds", None)
        if conf:
            conf["run"].pop("output_dir", None)
        return d


def shuffled(c, x, top=True):
    """The same configuration with its mappings written in another order (search spaces keep theirs)."""
    if isinstance(x, dict):
        ks = list(x)
        out = {}
        while ks:
            k = ks.pop(c.choose(len(ks), "order"))
            out[k] = x[k] if k in ("search", "space") else shuffled(c, x[k], False)
        return out
    if isinstance(x, list):
        return [shuffled(c, y, False) for y in x]
    return x


class B04(BenchScenario):
    prop = "B04"
    light = False
    rule = ("one experiment over all 47 methods of the repository's toy benchmark and all input stages is run alone, then again with warm "
            "caches, after other experiments in the same process, after a killed run of itself or of another, with other clocks and "
            "random state, its mappings written in another order, or in an interpreter with another string-hash seed: the record and "
            "the predictions of the fitted model must be the same; non-trivial: at least one repeat")
    quick_runs = 300
    thorough_runs = 14000
    must_reach = ("warm", "history", "killed", "interpreter", "order", "ok", "failed", "skew")

    def setup(self):
        self.start_peer()

    def run(self, sim):
        c = sim.c
        probes = {}
        cfg = gen_cfg(c, light=None)
        if c.flip(1, 12, "fail"):
            failing(c, cfg)
        v0, r0 = self.ref_single(sim, cfg, "ref")
        probes["ok" if v0[:2] == ("rc", 0) else "failed"] = 1
        sim.trace.append(f"experiment: {brief(cfg)} -> {v0[:2]}")
        others = []
        for i in range(c.choose(3, "others")):
            o = gen_cfg(c, light=c.flip(2, 3, "light"), search=False) if c.flip(1, 3, "far") else copy.deepcopy(cfg)
            o["dataset"]["options"] = copy.deepcopy(cfg["dataset"]["options"])
            w = c.choose(4, "twist")
            if w == 0:
                o["run"]["seed"] += 1
            elif w == 1:
                for k in ("sampling", "preprocess", "graph", "views", "augmentation"):
                    if k in o and o[k].get("seed") is not None:
                        o[k]["seed"] += 3
            elif w == 2:
                o["dataset"]["options"]["seed"] += 1
            o["run"]["fail_fast"] = False
            others.append(o)
        want = canon(r0.digest())
        for j in range(1 + c.choose(3, "repeats")):
            if j and c.flip(1, 3, "fresh"):
                os.rename(os.path.join(sim.root, "w"), os.path.join(sim.root, f"old{j}"))
            again = os.path.isdir(os.path.join(sim.root, "w", "out"))
            how = []
            y = cfg
            if c.flip(1, 4, "shuffle"):
                y = shuffled(c, cfg)
                how.append("other key order")
                probes["order"] = 1
            write_cfg(sim, "w", "c.yaml", y)
            for i, o in enumerate(others):
                write_cfg(sim, "w", f"o{i}.yaml", o)
            names = ["c.yaml"] + [f"o{i}.yaml" for i in range(len(others))]
            if c.flip(1, 3, "killed-before"):
                p = sim.run_one(sim.spawn(f"before{j}", op_bench, "w", c.pick(names, "of")), faults=("crash", "torn", "errno", "enospc"), max_faults=1,
                                hint=c.pick([60, 20, 150], "hint"))
                if p.state == "crashed":
                    probes["killed"] = 1
                    how.append("after a killed run")
                again = True
            before = []
            for _ in range(c.choose(3, "nbefore")):
                before.append(("w", c.pick(names, "before")))
            if before:
                how.append(f"after {len(before)} experiments in the process")
                probes["history"] = 1
            if again:
                probes["warm"] = 1
                how.append("warm caches")
            olds = {r.rel for r in outputs(sim, "w")[0]}
            if c.flip(1, 4, "interpreter"):
                kind, v = self.peer.call(op_bench, "w", "c.yaml", None, tuple(before), root=sim.root, salt=c.choose(9, "salt"))
                if kind != "ok":
                    raise AssertionError(f"harness: {v}")
                probes["interpreter"] = 1
                how.append("other interpreter")
            else:
                sk = c.pick([0.0, 1e5, -4e7, 3e8], "skew")
                if sk:
                    probes["skew"] = 1
                v = self.val(sim.run_one(sim.spawn(f"again{j}", op_bench, "w", "c.yaml", None, tuple(before), skew=sk)), "repeat")
            what = f"{brief(cfg)} again ({', '.join(how) or 'fresh'})"
            if (v[0], v[1]) != (v0[0], v0[1]) or v[-1] != v0[-1]:
                raise Violation("not-reproducible", f"{what}: {v[:4]} predictions {v[-1]}; before: {v0[:4]} predictions {v0[-1]}")
            mine = [r for r in outputs(sim, "w")[0] if r.rel not in olds and r.owner == "c.yaml"]
            mine = [r for r in mine if not before or r.json]
            if not mine:
                raise Violation("run-lost", f"{what} left no record")
            for r in mine:
                if r.bad:
                    raise Violation("record-torn", f"{what}: {r.bad}")
                got = canon(r.digest())
                if got != want:
                    raise Violation("not-reproducible", f"{what} left another record: {diff(want, got)}")
        return {"nontrivial": True, "kind": cfg["method"]["id"], "probes": probes, "key": key(cfg)[:2000]}


def trials_of(run):
    return [json.loads(s) for s in (run.trials or "").splitlines()]


def best_of(vals, direction):
    """The documented winner: best value, the first one among equals, undefined values last."""
    best = None
    for i, x in enumerate(vals):
        x = (-math.inf if direction == "maximize" else math.inf) if x != x else x
        if best is None or (x > best[0] if direction == "maximize" else x < best[0]):
            best = (x, i)
    return best[1]


class B05(BenchScenario):
    prop = "B05"
    light = False
    rule = ("a hyper-parameter search (grid or random, lists and distributions, one or more repeats, either direction) is run, then again "
            "with the direction reversed, fewer trials, fewer repeats, after other searches in the same process or with ambient state "
            "changed, and its winner is run directly; non-trivial: at least two trials")
    quick_runs = 200
    thorough_runs = 9000
    must_reach = ("grid", "random", "tie", "prefix", "repeats", "direct", "reversed", "deep", "limited")

    def run(self, sim):
        c = sim.c
        probes = {}
        light = c.flip(2, 3, "light")
        cfg = gen_cfg(c, light=light, search=True)
        if "batch_size" in cfg["search"]["space"]["method"]["params"] and c.flip(2, 3, "limit"):
            cfg["limits"] = {"max_method_batch_size": c.pick([8, 3], "cap")}
        if not light and cfg["method"]["id"] in METHODS:
            probes["deep"] = 1
        cfg["dataset"]["options"]["n_samples"] = 32
        s = cfg["search"]
        probes[s["kind"]] = 1
        v, run = self.ref_single(sim, cfg, "ref")
        sim.trace.append(f"experiment: {brief(cfg)} {s} -> {v[:2]}")
        if v[:2] != ("rc", 0):
            return {"nontrivial": False, "kind": "failed", "probes": probes, "key": key(cfg)[:2000]}
        h, ts = run.raw["hpo"], trials_of(run)
        what = f"the search of {brief(cfg)} ({s['kind']}, {s['objective']['direction']})"
        space = s["space"]["method"]["params"]
        n = s["n_trials"] if s["kind"] == "random" else math.prod(len(x) for x in space.values())
        if [t["index"] for t in ts] != list(range(n)) or h["n_trials"] != n:
            raise Violation("trials", f"{what} has trials {[t['index'] for t in ts]} and counts {h['n_trials']}; {n} were requested")
        for t in ts:
            vals = t["objective"]["values"]
            if len(vals) != s["repeats"]:
                raise Violation("trials", f"{what}: trial {t['index']} has {len(vals)} of {s['repeats']} repeats")
            if not near(t["objective"]["value"], sum(vals) / len(vals)):
                raise Violation("trials", f"{what}: trial {t['index']} aggregates {vals} to {t['objective']['value']}")
            for k, x in space.items():
                if isinstance(x, dict) and "dist" not in x:
                    continue
                g = t["params"].get("method.params." + k, t["patch"]["method"]["params"].get(k))
                g2 = t["patch"]["method"]["params"].get(k)
                if g != g2 or (isinstance(x, list) and g not in x) or (isinstance(x, dict) and not x["low"] <= g <= x["high"]):
                    raise Violation("trials", f"{what}: trial {t['index']} uses {k}={g!r} / {g2!r}, outside {x}")
        if s["kind"] == "grid":
            seen = {json.dumps(t["patch"], sort_keys=True) for t in ts}
            if len(seen) != n:
                raise Violation("trials", f"{what} tries {len(seen)} of the {n} combinations")
        vals = [t["objective"]["value"] for t in ts]
        b = best_of(vals, s["objective"]["direction"])
        if len(set(vals)) < len(vals):
            probes["tie"] = 1
        if h["best_index"] != b or h["best_patch"] != ts[b]["patch"] or h["best_params"] != ts[b]["params"] or not near(h["best_score"], vals[b]):
            raise Violation("winner", f"{what} with values {vals} reports {h['best_index']} ({h['best_score']}, {h['best_patch']}) instead of {b}")
        cap = (cfg.get("limits") or {}).get("max_method_batch_size")
        for k, x in ts[b]["patch"]["method"]["params"].items():
            if k == "batch_size" and cap:
                x = min(x, cap)
            if run.config["method"]["params"].get(k) != x or run.raw["config"]["method"]["params"].get(k) != x:
                raise Violation("winner", f"{what}: the final run has {k}={run.config['method']['params'].get(k)!r}, the winner {x!r}")
        # the winner, run directly
        d = copy.deepcopy(cfg)
        d["method"]["params"].update(ts[b]["patch"]["method"]["params"])
        d.pop("search")
        vd, rd = self.ref_single(sim, d, "direct")
        probes["direct"] = 1
        if vd[:2] != ("rc", 0) or vd[-1] != v[-1] or canon(rd.json["metrics"]) != canon(run.json["metrics"]):
            raise Violation("winner", f"{what} reports {run.json['metrics']} predictions {v[-1]}; its winner run directly gives {vd[:4]} "
                            f"{rd.json['metrics']} predictions {vd[-1]}")
        for j in range(1 + c.choose(3, "nvar")):
            w = c.choose(4, "var")
            q = copy.deepcopy(cfg)
            clamped = cap and isinstance(space.get("batch_size"), list) and max(space["batch_size"]) > cap and not j
            if clamped:
                # a trial is scored as it would be run: within the limits
                q["search"]["space"]["method"]["params"]["batch_size"] = [min(x, cap) for x in space["batch_size"]]
                probes["limited"] = 1
            elif w == 0:
                q["search"]["objective"]["direction"] = "minimize" if s["objective"]["direction"] == "maximize" else "maximize"
                probes["reversed"] = 1
            elif w == 1 and s["kind"] == "random" and n > 1:
                q["search"]["n_trials"] = n - 1
                probes["prefix"] = 1
            elif w == 1:
                for k in q["search"]["space"]["method"]["params"]:
                    q["search"]["space"]["method"]["params"][k] = space[k][:1]
                probes["prefix"] = 1
            elif w == 2 and s["repeats"] > 1:
                q["search"]["repeats"] = s["repeats"] - 1
                probes["repeats"] = 1
            write_cfg(sim, "w", "c.yaml", q)
            before = tuple(("w", "c.yaml") for _ in range(c.choose(2, "nbefore")))
            vq = self.val(sim.run_one(sim.spawn(f"var{j}", op_bench, "w", "c.yaml", None, before, skew=c.pick([0.0, 3e8], "skew"))), "variant")
            rq = [r for r in outputs(sim, "w")[0] if r.owner == "c.yaml"]
            if vq[:2] != ("rc", 0) or not rq:
                raise Violation("trials", f"{what} run with {q['search']} ends with {vq[:4]}")
            for r in rq:
                tq = trials_of(r)
                for a, x in zip(ts, tq):
                    if clamped:
                        if canon(a["objective"]) != canon(x["objective"]):
                            raise Violation("limits", f"{what}: trial {a['index']} ({a['params']}) scores {a['objective']['values']}; within the batch "
                                            f"size limit {cap} ({x['params']}) it scores {x['objective']['values']}")
                        continue
                    x0 = {**a, "objective": {**a["objective"], "values": a["objective"]["values"][: len(x["objective"]["values"])], "value": None}}
                    x1 = {**x, "objective": {**x["objective"], "value": None}}
                    if canon(x0) != canon(x1):
                        raise Violation("trial-depends", f"{what}: trial {a['index']} is {x0} alone and {x1} with {q['search']}")
                bq = best_of([t["objective"]["value"] for t in tq], q["search"]["objective"]["direction"])
                if r.raw["hpo"]["best_index"] != bq:
                    raise Violation("winner", f"{what} with {q['search']}: winner {r.raw['hpo']['best_index']} instead of {bq}")
            os.rename(os.path.join(sim.root, "w"), os.path.join(sim.root, f"var{j}"))
        return {"nontrivial": n > 1, "kind": s["kind"], "probes": probes, "key": key(cfg)[:2000]}


def op_hidden(rt, where, fname, how, salt):
    """One run in which labels the method must not see are permuted (or lost) as soon as the split is known."""
    import numpy as np

    from bench.orchestrators import sampling as so

    real = so.run
    info = {}

    def run(dataset, *a, **k):
        s = real(dataset, *a, **k)
        rng = np.random.default_rng(salt)

        def shuffle(split, idx):
            y = np.array(split.y, copy=True)
            idx = np.asarray(idx, dtype=np.int64)
            if idx.size < 2:
                return
            old = y[idx].copy()
            y[idx] = old[rng.permutation(idx.size)] if how == "permute" else np.roll(old, 1)
            info["changed"] = info.get("changed", 0) + int((y[idx] != old).sum())
            object.__setattr__(split, "y", y)

        shuffle(dataset.train, s.indices["train_unlabeled"])
        if s.refs.get("test", "train") == "test":
            shuffle(dataset.test, s.indices["test"])
        else:
            shuffle(dataset.train, s.indices["test"])
        return s

    so.run = run
    try:
        return one_run(rt, where, fname) + (info.get("changed", 0),)
    finally:
        so.run = real


class B06(BenchScenario):
    prop = "B06"
    light = False
    rule = ("one experiment over all 47 methods is run as it is, then with the labels of its unlabeled and test rows permuted after the "
            "split, and with other reported splits and metrics: the fitted model's predictions and the validation metrics must not "
            "change; non-trivial: hidden labels were changed")
    quick_runs = 500
    thorough_runs = 20000
    must_reach = ("permuted", "transductive", "inductive", "evaluation", "search", "official", "no-validation")

    def run(self, sim):
        c = sim.c
        probes = {}
        cfg = gen_cfg(c, light=None)
        noval = not cfg.get("search") and c.flip(1, 5, "no-validation")
        if noval:
            cfg["sampling"]["plan"]["split"]["val_fraction"] = 0.0
            cfg["evaluation"]["report_splits"] = c.pick([["test"], ["train", "test"]], "splits")
            probes["no-validation"] = 1
        elif "val" not in cfg["evaluation"]["report_splits"]:
            cfg["evaluation"]["report_splits"].append("val")
        v0, r0 = self.ref_single(sim, cfg, "ref")
        sim.trace.append(f"experiment: {brief(cfg)} -> {v0[:2]}")
        if v0[:2] != ("rc", 0):
            return {"nontrivial": False, "kind": "failed", "probes": probes, "key": key(cfg)[:2000]}
        probes[cfg["method"]["kind"]] = 1
        if cfg.get("search"):
            probes["search"] = 1
        if cfg["dataset"]["options"].get("official_test", True):
            probes["official"] = 1
        moved = 0
        for j in range(1 + c.choose(2, "nvar")):
            w = c.choose(3, "var")
            q = copy.deepcopy(cfg)
            if w == 2:
                q["evaluation"]["report_splits"] = c.pick([["test"], ["test", "train"]] if noval else [["val"], ["val", "train"], ["test", "train", "val"]], "splits")
                extra = c.pick(["macro_f1", "balanced_accuracy", "accuracy"], "metric")
                if extra not in q["evaluation"]["metrics"]:
                    q["evaluation"]["metrics"] = q["evaluation"]["metrics"] + [extra]
                probes["evaluation"] = 1
                what = f"reports {q['evaluation']['report_splits']} {q['evaluation']['metrics']}"
                vq, rq, _ = self.reference(sim, q, f"var{j}")
            else:
                write_cfg(sim, "w", "c.yaml", q)
                vq = self.val(sim.run_one(sim.spawn(f"var{j}", op_hidden, "w", "c.yaml", ("permute", "roll")[w], c.choose(50, "salt"))), "variant")
                moved += vq[-1]
                vq = vq[:-1]
                rq = outputs(sim, "w")[0]
                os.rename(os.path.join(sim.root, "w"), os.path.join(sim.root, f"var{j}"))
                what = "has other labels on its unlabeled and test rows"
                probes["permuted"] = 1
            what = f"{brief(cfg)} when it {what}"
            if vq[:2] != ("rc", 0) or len(rq) != 1:
                raise Violation("hidden-labels", f"{what} ends with {vq[:4]} instead of success")
            if vq[-1] != v0[-1]:
                raise Violation("hidden-labels", f"{what} predicts something else: {v0[-1]} / {vq[-1]}")
            for s in () if noval else ("val",):
                a, b = r0.json["metrics"][s], rq[0].json["metrics"][s]
                for m in a:
                    if a[m] != b.get(m):
                        raise Violation("hidden-labels", f"{what} has another validation {m}: {a[m]} / {b.get(m)}")
            if cfg.get("search") and r0.raw["hpo"]["best_patch"] != rq[0].raw["hpo"]["best_patch"]:
                raise Violation("hidden-labels", f"{what} selects other hyper-parameters: {r0.raw['hpo']['best_patch']} / {rq[0].raw['hpo']['best_patch']}")
        return {"nontrivial": moved > 0, "kind": cfg["method"]["id"], "probes": probes, "key": key(cfg)[:2000]}


SCENARIOS = {}
for _k in list(globals().values()):
    if isinstance(_k, type) and issubclass(_k, BenchScenario) and _k.prop:
        SCENARIOS[_k.prop] = _k()
