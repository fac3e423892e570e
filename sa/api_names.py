"""attribute names of modelled library types; written by tools/gen_api_names.py"""
NAMES = {
    'DataArray': frozenset('T _HANDLED_TYPES __abs__ __add__ __and__ __annotations__ __array__ __array_priority__ __array_ufunc__ __array_wrap__ __bool__ __class__ __complex__ __contains__ __copy__ __dask_graph__ __dask_keys__ __dask_layers__ __dask_optimize__ __dask_postcompute__ __dask_postpersist__ __dask_scheduler__ __dask_tokenize__ __deepcopy__ __delattr__ __delitem__ __dir__ __doc__ __enter__ __eq__ __exit__ __float__ __floordiv__ __format__ __ge__ __getattr__ __getattribute__ __getitem__ __getstate__ __gt__ __hash__ __iadd__ __iand__ __ifloordiv__ __ilshift__ __imod__ __imul__ __init__ __init_subclass__ __int__ __invert__ __ior__ __ipow__ __irshift__ __isub__ __iter__ __itruediv__ __ixor__ __le__ __len__ __lshift__ __lt__ __matmul__ __mod__ __module__ __mul__ __ne__ __neg__ __new__ __or__ __pos__ __pow__ __radd__ __rand__ __reduce__ __reduce_ex__ __repr__ __rfloordiv__ __rmatmul__ __rmod__ __rmul__ __ror__ __rpow__ __rshift__ __rsub__ __rtruediv__ __rxor__ __setattr__ __setitem__ __sizeof__ __slots__ __str__ __sub__ __subclasshook__ __truediv__ __weakref__ __xor__ _all_compat _attr_sources _binary_op _cache _calc_assign_results _close _construct_direct _coords _copy _copy_attrs_from _cum_extra_args_docstring _dask_finalize _from_temp_dataset _get_axis_num _getitem_coord _in_memory _indexes _inplace_binary_op _ipython_key_completions_ _item_key_to_dict _item_sources _iter _name _overwrite_indexes _reduce_extra_args_docstring _reduce_method _reindex_callback _replace _replace_maybe_drop_dims _repr_html_ _resample _result_name _setattr_dict _title_for_slice _to_dataset_split _to_dataset_whole _to_index _to_temp_dataset _unary_op _variable all any argmax argmin argsort as_numpy assign_attrs assign_coords astype attrs bfill broadcast_equals broadcast_like chunk chunks chunksizes clip close coarsen combine_first compute conj conjugate convert_calendar coords copy count cumprod cumsum cumulative_integrate curvefit data diff differentiate dim_0 dims dot drop drop_duplicates drop_encoding drop_indexes drop_isel drop_sel drop_vars dropna dt dtype encoding equals expand_dims ffill fillna from_dict from_iris from_series get_axis_num get_index groupby groupby_bins head identical idxmax idxmin imag indexes integrate interp interp_calendar interp_like interpolate_na isel isin isnull item load loc map_blocks max mean median min name nbytes ndim notnull pad persist pipe plot polyfit prod quantile query rank real reduce reindex reindex_like rename reorder_levels resample reset_coords reset_encoding reset_index roll rolling rolling_exp round searchsorted sel set_close set_index set_xindex shape shift size sizes sortby squeeze stack std str sum swap_dims tail thin to_dask_dataframe to_dataframe to_dataset to_dict to_index to_iris to_masked_array to_netcdf to_numpy to_pandas to_series to_unstacked_dataset to_zarr transpose unify_chunks unstack values var variable weighted where xindexes'.split()),
    'Dataset': frozenset('_HANDLED_TYPES __abs__ __abstractmethods__ __add__ __and__ __annotations__ __array__ __array_priority__ __array_ufunc__ __bool__ __class__ __class_getitem__ __contains__ __copy__ __dask_graph__ __dask_keys__ __dask_layers__ __dask_optimize__ __dask_postcompute__ __dask_postpersist__ __dask_scheduler__ __dask_tokenize__ __deepcopy__ __delattr__ __delitem__ __dir__ __doc__ __enter__ __eq__ __exit__ __floordiv__ __format__ __ge__ __getattr__ __getattribute__ __getitem__ __getstate__ __gt__ __hash__ __iadd__ __iand__ __ifloordiv__ __ilshift__ __imod__ __imul__ __init__ __init_subclass__ __invert__ __ior__ __ipow__ __irshift__ __isub__ __iter__ __itruediv__ __ixor__ __le__ __len__ __lshift__ __lt__ __mod__ __module__ __mul__ __ne__ __neg__ __new__ __or__ __orig_bases__ __pos__ __pow__ __radd__ __rand__ __reduce__ __reduce_ex__ __repr__ __reversed__ __rfloordiv__ __rmod__ __rmul__ __ror__ __rpow__ __rshift__ __rsub__ __rtruediv__ __rxor__ __setattr__ __setitem__ __sizeof__ __slots__ __str__ __sub__ __subclasshook__ __truediv__ __weakref__ __xor__ _abc_impl _all_compat _assert_all_in_dataset _attr_sources _attrs _binary_op _cache _calc_assign_results _calculate_binary_op _close _construct_dataarray _construct_direct _coord_names _copy _copy_attrs_from _copy_listed _cum_extra_args_docstring _dask_postcompute _dask_postpersist _dims _encoding _get_indexers_coords_and_indexes _get_stack_index _indexes _inplace_binary_op _integrate_one _ipython_key_completions_ _isel_fancy _item_sources _normalize_dim_order _overwrite_indexes _persist_inplace _reduce_extra_args_docstring _reduce_method _reindex _reindex_callback _rename _rename_all _rename_dims _rename_indexes _rename_vars _replace _replace_vars_and_dims _replace_with_new_dims _repr_html_ _resample _set_numpy_data_from_dataframe _set_sparse_data_from_dataframe _setattr_dict _setitem_check _stack_once _to_dataframe _unary_op _unstack_full_reindex _unstack_once _validate_indexers _validate_interp_indexers _variables all any apply argmax argmin argsort as_numpy assign assign_attrs assign_coords astype attrs bfill broadcast_equals broadcast_like chunk chunks chunksizes clip close coarsen combine_first compute conj conjugate convert_calendar coords copy count cumprod cumsum cumulative_integrate curvefit data_vars diff differentiate dims drop drop_dims drop_duplicates drop_encoding drop_indexes drop_isel drop_sel drop_vars dropna dtypes dump_to_store encoding equals eval expand_dims ffill fillna filter_by_attrs from_dataframe from_dict get get_index groupby groupby_bins head identical idxmax idxmin imag indexes info integrate interp interp_calendar interp_like interpolate_na isel isin isnull items keys load load_store loc map map_blocks max mean median merge min nbytes notnull pad persist pipe plot polyfit prod quantile query rank real reduce reindex reindex_like rename rename_dims rename_vars reorder_levels resample reset_coords reset_encoding reset_index roll rolling rolling_exp round sel set_close set_coords set_index set_xindex shift sizes sortby squeeze stack std sum swap_dims tail thin to_array to_dask_dataframe to_dataarray to_dataframe to_dict to_netcdf to_pandas to_stacked_array to_zarr transpose unify_chunks unstack update values var variables weighted where xindexes'.split()),
    'CfTime': frozenset('__add__ __class__ __delattr__ __dir__ __doc__ __eq__ __format__ __ge__ __getattribute__ __getstate__ __gt__ __hash__ __init__ __init_subclass__ __le__ __lt__ __module__ __ne__ __new__ __pyx_vtable__ __radd__ __reduce__ __reduce_ex__ __repr__ __rsub__ __setattr__ __sizeof__ __str__ __sub__ __subclasshook__ _dayofwk _dayofyr _to_real_datetime calendar change_calendar datetime_compatible day dayofwk dayofyr daysinmonth format fromordinal has_year_zero hour isoformat microsecond minute month replace second strftime strptime timetuple to_tuple toordinal tzinfo year'.split()),
    'TextFile': frozenset('_CHUNK_SIZE __class__ __del__ __delattr__ __dict__ __dir__ __doc__ __enter__ __eq__ __exit__ __format__ __ge__ __getattribute__ __getstate__ __gt__ __hash__ __init__ __init_subclass__ __iter__ __le__ __lt__ __module__ __ne__ __new__ __next__ __reduce__ __reduce_ex__ __repr__ __setattr__ __sizeof__ __str__ __subclasshook__ _checkClosed _checkReadable _checkSeekable _checkWritable _finalizing buffer close closed detach encoding errors fileno flush isatty line_buffering name newlines read readable readline readlines reconfigure seek seekable tell truncate writable write write_through writelines'.split()),
    'ZAttrs': frozenset('_MutableMapping__marker __abstractmethods__ __class__ __class_getitem__ __contains__ __delattr__ __delitem__ __dict__ __dir__ __doc__ __eq__ __format__ __ge__ __getattribute__ __getitem__ __getstate__ __gt__ __hash__ __init__ __init_subclass__ __iter__ __le__ __len__ __lt__ __module__ __ne__ __new__ __reduce__ __reduce_ex__ __repr__ __reversed__ __setattr__ __setitem__ __sizeof__ __slots__ __str__ __subclasshook__ __weakref__ _abc_impl _cached_asdict _delitem_nosync _get_nosync _ipython_key_completions_ _put_nosync _setitem_nosync _update_nosync _version _write_op asdict cache clear get items key keys pop popitem put read_only refresh setdefault store synchronizer update values'.split()),
    'ZArr': frozenset('__array__ __class__ __delattr__ __dict__ __dir__ __doc__ __eq__ __format__ __ge__ __getattribute__ __getitem__ __getstate__ __gt__ __hash__ __init__ __init_subclass__ __iter__ __le__ __len__ __lt__ __module__ __ne__ __new__ __reduce__ __reduce_ex__ __repr__ __setattr__ __setitem__ __setstate__ __sizeof__ __str__ __subclasshook__ __weakref__ _append_nosync _attrs _blocks _cache_metadata _cdata_shape _chunk_delitem _chunk_delitems _chunk_getitems _chunk_key _chunk_setitem _chunk_setitem_nosync _chunk_setitems _chunk_store _chunks _compressor _decode_chunk _dimension_separator _dtype _encode_chunk _fill_value _filters _flush_metadata_nosync _get_basic_selection_nd _get_basic_selection_zd _get_selection _info_items_nosync _is_view _key_prefix _load_metadata _load_metadata_nosync _meta _meta_array _nbytes _nchunks _oindex _order _partial_decompress _path _process_chunk _process_for_setitem _read_only _refresh_metadata _refresh_metadata_nosync _resize_nosync _set_basic_selection_nd _set_basic_selection_zd _set_selection _shape _size _store _synchronized_op _synchronizer _transformed_chunk_store _version _vindex _write_empty_chunks _write_op append astype attrs basename blocks cdata_shape chunk_store chunks compressor digest dtype fill_value filters get_basic_selection get_block_selection get_coordinate_selection get_mask_selection get_orthogonal_selection hexdigest info info_items initialized is_view islice itemsize meta_array name nbytes nbytes_stored nchunks nchunks_initialized ndim oindex order path read_only resize set_basic_selection set_block_selection set_coordinate_selection set_mask_selection set_orthogonal_selection shape size store synchronizer view vindex write_empty_chunks'.split()),
    'GroupObj': frozenset('_MutableMapping__marker __abstractmethods__ __class__ __class_getitem__ __contains__ __delattr__ __delitem__ __dict__ __dir__ __doc__ __enter__ __eq__ __exit__ __format__ __ge__ __getattr__ __getattribute__ __getitem__ __getstate__ __gt__ __hash__ __init__ __init_subclass__ __iter__ __le__ __len__ __lt__ __module__ __ne__ __new__ __reduce__ __reduce_ex__ __repr__ __reversed__ __setattr__ __setitem__ __setstate__ __sizeof__ __slots__ __str__ __subclasshook__ __weakref__ _abc_impl _array_iter _array_nosync _attrs _chunk_store _create_dataset_nosync _create_group_nosync _create_nosync _delitem_nosync _empty_like_nosync _empty_nosync _full_like_nosync _full_nosync _ipython_key_completions_ _item_path _key_prefix _meta _meta_array _move_nosync _ones_like_nosync _ones_nosync _path _read_only _repr_html_ _repr_javascript_ _repr_jpeg_ _repr_json_ _repr_latex_ _repr_markdown_ _repr_mimebundle_ _repr_pdf_ _repr_png_ _repr_svg_ _require_dataset_nosync _require_group_nosync _store _synchronizer _version _write_op _zeros_like_nosync _zeros_nosync a array array_keys arrays attrs basename chunk_store clear create create_dataset create_group create_groups empty empty_like full full_like get group_keys groups info info_items items keys meta_array move name ones ones_like path pop popitem read_only require_dataset require_group require_groups setdefault store synchronizer tree update values visit visititems visitkeys visitvalues zeros zeros_like'.split()),
    'FsObj': frozenset('__annotations__ __class__ __dask_tokenize__ __delattr__ __dict__ __dir__ __doc__ __eq__ __format__ __ge__ __getattribute__ __getstate__ __gt__ __hash__ __init__ __init_subclass__ __le__ __lt__ __module__ __ne__ __new__ __reduce__ __reduce_ex__ __repr__ __setattr__ __sizeof__ __str__ __subclasshook__ __weakref__ _cache _cached _extra_tokenize_attributes _fs_token _fs_token_ _get_kwargs_from_urls _get_pyarrow_filesystem _instantiation_lock _intrans _invalidated_caches_in_transaction _isfilestore _latest _ls_from_cache _open _parent _pid _rm _strip_protocol _strip_tokenize_options _transaction async_impl auto_mkdir blocksize cachable cat cat_file cat_ranges checksum chmod clear_instance_cache copy cp cp_file created current delete dircache disk_usage download du end_transaction exists expand_path find from_dict from_json fsid get get_file get_mapper glob head info invalidate_cache isdir isfile islink lexists link listdir local_file ls makedir makedirs mirror_sync_methods mkdir mkdirs modified move mv open pipe pipe_file protocol put put_file read_block read_bytes read_text rename rm rm_file rmdir root_marker sep sign size sizes start_transaction stat storage_args storage_options symlink tail to_dict to_json touch transaction transaction_type tree ukey unstrip_protocol upload walk write_bytes write_text'.split()),
    'BytesIO': frozenset('__class__ __del__ __delattr__ __dict__ __dir__ __doc__ __enter__ __eq__ __exit__ __format__ __ge__ __getattribute__ __getstate__ __gt__ __hash__ __init__ __init_subclass__ __iter__ __le__ __lt__ __module__ __ne__ __new__ __next__ __reduce__ __reduce_ex__ __repr__ __setattr__ __setstate__ __sizeof__ __str__ __subclasshook__ _checkClosed _checkReadable _checkSeekable _checkWritable close closed detach fileno flush getbuffer getvalue isatty read read1 readable readinto readinto1 readline readlines seek seekable tell truncate writable write writelines'.split()),
    'TimeDelta': frozenset('__abs__ __add__ __bool__ __class__ __delattr__ __dir__ __divmod__ __doc__ __eq__ __floordiv__ __format__ __ge__ __getattribute__ __getstate__ __gt__ __hash__ __init__ __init_subclass__ __le__ __lt__ __mod__ __mul__ __ne__ __neg__ __new__ __pos__ __radd__ __rdivmod__ __reduce__ __reduce_ex__ __repr__ __rfloordiv__ __rmod__ __rmul__ __rsub__ __rtruediv__ __setattr__ __sizeof__ __str__ __sub__ __subclasshook__ __truediv__ days max microseconds min resolution seconds total_seconds'.split()),
    'ndarray': frozenset('T __abs__ __add__ __and__ __array__ __array_finalize__ __array_function__ __array_interface__ __array_prepare__ __array_priority__ __array_struct__ __array_ufunc__ __array_wrap__ __bool__ __buffer__ __class__ __class_getitem__ __complex__ __contains__ __copy__ __deepcopy__ __delattr__ __delitem__ __dir__ __divmod__ __dlpack__ __dlpack_device__ __doc__ __eq__ __float__ __floordiv__ __format__ __ge__ __getattribute__ __getitem__ __getstate__ __gt__ __hash__ __iadd__ __iand__ __ifloordiv__ __ilshift__ __imatmul__ __imod__ __imul__ __index__ __init__ __init_subclass__ __int__ __invert__ __ior__ __ipow__ __irshift__ __isub__ __iter__ __itruediv__ __ixor__ __le__ __len__ __lshift__ __lt__ __matmul__ __mod__ __mul__ __ne__ __neg__ __new__ __or__ __pos__ __pow__ __radd__ __rand__ __rdivmod__ __reduce__ __reduce_ex__ __repr__ __rfloordiv__ __rlshift__ __rmatmul__ __rmod__ __rmul__ __ror__ __rpow__ __rrshift__ __rshift__ __rsub__ __rtruediv__ __rxor__ __setattr__ __setitem__ __setstate__ __sizeof__ __str__ __sub__ __subclasshook__ __truediv__ __xor__ all any argmax argmin argpartition argsort astype base byteswap choose clip compress conj conjugate copy ctypes cumprod cumsum data diagonal dot dtype dump dumps fill flags flat flatten getfield imag item itemset itemsize max mean min nbytes ndim newbyteorder nonzero partition prod ptp put ravel real repeat reshape resize round searchsorted setfield setflags shape size sort squeeze std strides sum swapaxes take tobytes tofile tolist tostring trace transpose var view'.split()),
    'Flags': frozenset('__class__ __delattr__ __delitem__ __dir__ __doc__ __eq__ __format__ __ge__ __getattribute__ __getitem__ __getstate__ __gt__ __hash__ __init__ __init_subclass__ __le__ __lt__ __ne__ __new__ __reduce__ __reduce_ex__ __repr__ __setattr__ __setitem__ __sizeof__ __str__ __subclasshook__ _warn_on_write _writeable_no_warn aligned behaved c_contiguous carray contiguous f_contiguous farray fnc forc fortran num owndata writeable writebackifcopy'.split()),
    'OpenFile': frozenset('__class__ __del__ __delattr__ __dict__ __dir__ __doc__ __enter__ __eq__ __exit__ __format__ __ge__ __getattribute__ __getstate__ __gt__ __hash__ __init__ __init_subclass__ __iter__ __le__ __lt__ __module__ __ne__ __new__ __next__ __reduce__ __reduce_ex__ __repr__ __setattr__ __sizeof__ __str__ __subclasshook__ _checkClosed _checkReadable _checkSeekable _checkWritable _dealloc_warn _finalizing close closed detach fileno flush isatty mode name peek raw read read1 readable readinto readinto1 readline readlines seek seekable tell truncate writable write writelines'.split()),
}
