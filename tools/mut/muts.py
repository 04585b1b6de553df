# (name, property, file, old, new): plausible mistakes, to see which the checks notice
M = [
# --- rpc_message_stream.h (client)
('m01', 'C01', 'rpc_message_stream.h', "                if (_pending_message_count == 0)\n                    break;", "                break;"),
('m02', 'C01', 'rpc_client_stream.h', "                it != tmp_map.end(); ++it)\n        {\n            it->second->Done(", "                it != tmp_map.end(); ++it)\n        {\n            if (it->second->IsRequestSent()) it->second->Done("),
('m03', 'C01', 'rpc_controller_impl.h', "if (atomic_comp_swap(&_is_done, DONE, NOT_DONE) == NOT_DONE)\n        {", "if (_is_done == NOT_DONE)\n        {\n            _is_done = DONE;"),
('m04', 'C02', 'rpc_message_stream.h', "if (_received_message_size + size < message_size)", "if (_received_message_size + size <= message_size && _received_message_size > 0 && size < 2)"),
('m05', 'C02', 'rpc_message_stream.h', "            _sending_data += bytes_transferred;\n            _sending_size -= bytes_transferred;", "            _sending_data += bytes_transferred;\n            _sending_size -= bytes_transferred;\n            if (_sending_size == 1) _sending_data -= 1;"),
('m06', 'C02', 'binary_rpc_request_parser.cc', "    _bytes_recved = 0;\n    _req.reset", "    if (_state == PS_MAGIC_STRING) _bytes_recved = 0;\n    _req.reset"),
('m07', 'C02', 'rpc_server_message_stream.h', "                consumed = std::min(size, 4 - _magic_string_recved_bytes);", "                consumed = std::min(size, 4);  if (consumed > 4 - _magic_string_recved_bytes) consumed = 4 - _magic_string_recved_bytes; if (_magic_string_recved_bytes == 3) _magic_string_recved_bytes = 3, consumed = std::min(size, 1), _current_rpc_request_parser.reset();"),
('m08', 'C03', 'rpc_client_stream.h', "return !cntl->IsDone() && !cntl->IsStartCancel();", "return !cntl->IsDone() || pending_message_count() > 0;"),
('m09', 'C03', 'rpc_message_stream.h', "            on_send_failed(RPC_ERROR_CHANNEL_BROKEN, _sending_message, _sending_cookie);\n            clear_sending_env();", "            if (_sent_size == 0) { insert_into_pending_queue(_sending_message, _sending_cookie); clear_sending_env(); close(error.message()); return; }\n            on_send_failed(RPC_ERROR_CHANNEL_BROKEN, _sending_message, _sending_cookie);\n            clear_sending_env();"),
('m10', 'C04', 'rpc_request.cc', "if (server_wait_time_us > cntl->ServerTimeout() * 1000)", "if (server_wait_time_us > cntl->ServerTimeout() * 1000 && stream->pending_process_count() > 0)"),
('m11', 'C04', 'rpc_timeout_manager.h', "                _events.get<INDEX_BY_ID>().erase(*erase_it);\n                ++erase_it;\n            }\n            else // add", "                ++erase_it;\n            }\n            else // add"),
('m12', 'C04', 'rpc_timeout_manager.h', "exp_index.upper_bound(now_ticks);", "exp_index.upper_bound(now_ticks + 100000);"),
('m13', 'C04', 'rpc_controller_impl.h', "method->options().HasExtension(method_timeout) ?", "!method->service()->options().HasExtension(service_timeout) ?"),
('m14', 'C05', 'rpc_client_impl.cc', "if (find != _stream_map.end() && !find->second->is_closed())\n    {\n        return;\n    }", ""),
('m15', 'C05', 'rpc_client_impl.cc', "if (find != _stream_map.end() && !find->second->is_closed())\n        {", "if (find != _stream_map.end() && (!find->second->is_closed() || find->second->is_connecting() || find->second->pending_message_count() > 0))\n        {"),
('m16', 'C06', 'binary_rpc_request_parser.cc', "if (bytes_remain > MAX_MESSAGE_SIZE || bytes_remain <= 0)", "if (bytes_remain > MAX_MESSAGE_SIZE)"),
('m17', 'C06', 'binary_rpc_request_parser.cc', "            if (_req->_req_header.message_size == 0)\n            {\n                // all complete\n                return 1;\n            }", ""),
('m18', 'C07', 'rpc_client_stream.h', "        if (meta.type() != RpcMeta::RESPONSE)", "        if (meta.type() != RpcMeta::RESPONSE && meta.has_method())"),
('m19', 'C07', 'rpc_client_stream.h', "        if (!meta.has_failed())", "        if (false && !meta.has_failed())"),
('m20', 'C08', 'flow_controller.h', "        int new_quota = old_quota > 0 ? quota : old_quota + quota;\n        while (atomic_comp_swap(&_write_quota", "        int new_quota = quota;\n        while (atomic_comp_swap(&_write_quota"),
('m21', 'C08', 'flow_controller.h', "        int new_quota = old_quota > 0 ? old_quota - quota : old_quota - 1;\n        while (atomic_comp_swap(&_read_quota", "        int new_quota = old_quota > 0 ? old_quota - quota / 2 : old_quota - 1;\n        while (atomic_comp_swap(&_read_quota"),
('m22', 'C08', 'rpc_server_impl.cc', "                if (token <= 0)\n                {\n                    // only need trigger streams whose token <= 0\n                    trigger_list.push_back(FlowControlItem(token, stream.get()));\n                }\n            }\n\n            // sort by token: token closer to zero, earlier to trigger\n            std::sort(trigger_list.begin(), trigger_list.end());\n\n            // trigger in order\n            for (std::vector<FlowControlItem>::iterator t_it = trigger_list.begin();\n                    t_it != trigger_list.end(); ++t_it)\n            {\n                t_it->stream->trigger_send();", "                if (token < 0)\n                {\n                    // only need trigger streams whose token <= 0\n                    trigger_list.push_back(FlowControlItem(token, stream.get()));\n                }\n            }\n\n            // sort by token: token closer to zero, earlier to trigger\n            std::sort(trigger_list.begin(), trigger_list.end());\n\n            // trigger in order\n            for (std::vector<FlowControlItem>::iterator t_it = trigger_list.begin();\n                    t_it != trigger_list.end(); ++t_it)\n            {\n                t_it->stream->trigger_send();"),
('m23', 'C09', 'rpc_server_message_stream.h', "                if (_role_type == ROLE_TYPE_SERVER)\n                    try_start_receive();", "                if (_role_type == ROLE_TYPE_SERVER && _pending_message_count > 0)\n                    try_start_receive();"),
('m24', 'C09', 'rpc_server_message_stream.h', "            _swapped_buffer_size -= (*message)->TotalBlockSize();\n            return true;", "            _swapped_buffer_size -= (*message)->TotalCount();\n            if (_swapped_calls.empty()) _swapped_buffer_size = 0;\n            return true;"),
('m25', 'C09', 'rpc_message_stream.h', "        _pending_buffer_size += message->TotalBlockSize();\n    }\n\n    // Insert", "        _pending_buffer_size = message->TotalBlockSize();\n    }\n\n    // Insert"),
('m26', 'C10', 'rpc_server_message_stream.h', "        _last_rw_ticks = _ticks;\n        _sent_size += bytes_transferred;", "        _sent_size += bytes_transferred;"),
('m27', 'C10', 'rpc_server_impl.cc', "if (stream->pending_process_count() == 0\n                        && now_ticks", "if (now_ticks"),
('m28', 'C10', 'rpc_client_impl.cc', "now_ticks - stream->last_rw_ticks() >= _keep_alive_ticks", "now_ticks - stream->last_rw_ticks() > 2 * _keep_alive_ticks"),
('m29', 'C11', 'rpc_server_impl.cc', "ConnectionCount() >= _options.max_connection_count)", "ConnectionCount() > _options.max_connection_count)"),
('m30', 'C11', 'rpc_server_impl.cc', "    _stream_set.erase(stream);\n", "    if (stream->pending_process_count() == 0) _stream_set.erase(stream);\n"),
('m31', 'C12', 'rpc_server_impl.cc', "        _last_restart_listen_ticks = now_ticks;\n        RestartListen();", "        if (RestartListen()) _last_restart_listen_ticks = now_ticks; else _last_restart_listen_ticks = now_ticks + _restart_listen_interval_ticks * 20;"),
('m32', 'C12', 'rpc_listener.h', "            close();\n\n            if (_accept_fail_callback)", "            if (ec == boost::asio::error::no_descriptors) close(); else return;\n\n            if (_accept_fail_callback)"),
('m33', 'C13', 'dynamic_rpc_channel_impl.cc', "            && !cntl->Failed() && response->health() == \"OK\") {", "            && !cntl->Failed() && server->is_last_request_succeed) {"),
('m34', 'C13', 'dynamic_rpc_channel_impl.cc', "                        && server->last_request_seq < min_last_request_seq)) {\n                min_wait_count", "                        && server->last_request_seq <= min_last_request_seq)) {\n                if (wait_count == 0) { choosed_server = server; break; }\n                min_wait_count"),
('m35', 'C13', 'dynamic_rpc_channel_impl.cc', "            server->is_last_request_succeed = false;\n            if (server->is_in_live_map) {", "            server->is_last_request_succeed = false;\n            if (server->is_in_live_map && cntl->IsRequestSent()) {"),
('m36', 'C14', 'dynamic_rpc_channel_impl.cc', "                    find->second->is_removed = true;\n                    _unlive_map.erase(find);", "                    _unlive_map.erase(find);"),
('m37', 'C14', 'dynamic_rpc_channel_impl.cc', "            ServerContextPtr server = find->second;\n            _live_map.erase(find);\n            server->is_in_live_map = false;\n            _unlive_map[server_address] = server;", "            ServerContextPtr server = find->second;\n            server->is_in_live_map = false;\n            _unlive_map[server_address] = server;\n            if (_live_map.size() > 1) _live_map.erase(find);"),
('m38', 'C15', 'rpc_client_impl.cc', "    StopStreams();\n    _maintain_thread_group->stop();\n    _work_thread_group->stop();", "    _maintain_thread_group->stop();\n    StopStreams();\n    _work_thread_group->stop();\n    { ScopedLocker<FastLock> _(_stream_map_lock); }"),
('m39', 'C15', 'rpc_client_impl.cc', "        it->second->close(\"client stopped\");", "        if (it->second->is_connected()) it->second->close(\"client stopped\");"),
('m40', 'C16', 'rpc_server_impl.cc', "        (*it)->close(\"server stopped\");", "        if ((*it)->pending_process_count() == 0) (*it)->close(\"server stopped\");"),
('m41', 'C16', 'rpc_server_impl.cc', "    ClearStreams();\n    _io_service_pool->Stop();", "    _io_service_pool->Stop();"),
('m42', 'C17', 'timeout_manager_impl.cc', "upper_bound(now_ticks);", "upper_bound(now_ticks + 20000);"),
('m43', 'C17', 'timeout_manager_impl.cc', "            cleared.insert(cleared.end(), by_id.begin(), by_id.end());", "            cleared.insert(cleared.end(), by_id.begin(), by_id.end()); if (cleared.size() > 3) cleared.pop_back();"),
('m44', 'C18', 'thread_group_impl.h', "        ++thread_param->init_done;\n        // run asio", "        // run asio"),
('m45', 'C18', 'thread_group_impl.h', "        delete _io_service_work;\n        _io_service_work = NULL;\n", "        delete _io_service_work;\n        _io_service_work = NULL;\n        if (_thread_num > 2) _io_service.stop();\n"),
('m46', 'C19', 'rpc_request.cc', "method_board->ReportProcessEnd(!cntl->Failed(), process_time_us);", "if (cntl->RpcServerStream().lock()) method_board->ReportProcessEnd(!cntl->Failed(), process_time_us);"),
('m47', 'C20', 'rpc_request.cc', "            delete request;\n            delete response;\n            delete controller;\n            return;\n        }\n    }\n\n    if (cntl->Failed())", "            delete response;\n            delete controller;\n            return;\n        }\n    }\n\n    if (cntl->Failed())"),
('m48', 'C20', 'buffer.cc', "        TranBufPool::free(buf_handle.data);\n        _buf_list.pop_front();\n    }\n    _total_block_size = 0;", "        if (buf_handle.size > 0) TranBufPool::free(buf_handle.data);\n        _buf_list.pop_front();\n    }\n    _total_block_size = 0;"),
('m49', 'C21', 'http_rpc_request_parser.cc', "        if (bytes_remain == 0)\n        {\n            return 1;\n        }\n        if (data_size", "        if (bytes_remain == 0 && data_size == 0)\n        {\n            return 1;\n        }\n        if (data_size"),
('m50', 'C21', 'http_rpc_request_parser.cc', "    _state = PS_METHOD;\n    _req.reset(new HTTPRpcRequest());\n    _content_length = 0;", "    _state = PS_METHOD;\n    _req.reset(new HTTPRpcRequest());"),
('m51', 'C22', 'rpc_server_message_stream.h', "        if (_receiving_size == 0 && !reset_tran_buf())\n        {\n            close(\"out of memory\");\n            return;\n        }", "        if (_receiving_size == 0 && !reset_tran_buf())\n        {\n            return;\n        }"),
('m52', 'C22', 'thread_group_impl.h', "                _thread_num = i;\n                stop();\n                return false;", "                _thread_num = i;\n                break;"),
('m53', 'C02', 'buffer.cc', "    _buf_list.back().size -= count;\n    _last_bytes = 0;", "    _buf_list.back().size -= count;\n    if (count > 8) _last_bytes = 0;"),
# --- second batch
('n01', 'C05', 'rpc_client_impl.cc', "find->second->is_closed())\n        {\n            stream = find->second;", "find->second->is_closed() && (find->second->is_connected() || find->second->is_connecting()))\n        {\n            stream = find->second;"),
('n02', 'C05', 'rpc_byte_stream.h', "            \n            close(\"init stream failed: \" + error.message());\n            return;", "            if (error != boost::asio::error::connection_reset && error != boost::asio::error::host_unreachable) close(\"init stream failed: \" + error.message());\n            return;"),
('n03', 'C01', 'rpc_byte_stream.h', "        if (atomic_swap(&_status, (int)STATUS_CLOSED) != STATUS_CLOSED)\n        {", "        int old_status = atomic_swap(&_status, (int)STATUS_CLOSED);\n        if (old_status == STATUS_CONNECTED || old_status == STATUS_CONNECTING)\n        {"),
('n04', 'C19', 'rpc_client_impl.cc', "    if (!_is_running)\n        return;\n\n    ScopedLocker<FastLock> _(_stream_map_lock);\n    // to prevent", "    if (!_is_running || stream->pending_message_count() == 0)\n        return;\n\n    ScopedLocker<FastLock> _(_stream_map_lock);\n    // to prevent"),
('n05', 'C02', 'rpc_client_impl.cc', "    return static_cast<uint64>(++_next_request_id);", "    uint64 id = static_cast<uint64>(static_cast<int64>(_next_request_id)) + 1;\n    ++_next_request_id;\n    return id;"),
('n06', 'C04', 'rpc_client_impl.cc', "meta.set_server_timeout(timeout);", "meta.set_server_timeout(timeout * 2);"),
('n07', 'C04', 'rpc_client_impl.cc', "    if (timeout > 0)\n    {\n        meta.set_server_timeout(timeout);\n    }\n", ""),
('n08', 'C09', 'rpc_message_stream.h', "return _pending_buffer_size + _swapped_buffer_size;", "return _pending_buffer_size;"),
('n09', 'C09', 'rpc_client_impl.cc', "stream->pending_buffer_size() > stream->max_pending_buffer_size()", "stream->pending_buffer_size() >= stream->max_pending_buffer_size()"),
('n10', 'C09', 'rpc_server_message_stream.h', "return _pending_buffer_size + _swapped_buffer_size;", "return _swapped_buffer_size;"),
('n11', 'C12', 'rpc_listener.h', "            close();\n\n            if (_accept_fail_callback)", "            if (ec == boost::asio::error::connection_aborted) { async_accept(); return; }\n            close();\n\n            if (_accept_fail_callback)"),
('n12', 'C16', 'rpc_server_impl.cc', "    StopStreams();\n", ""),
('n13', 'C17', 'timeout_manager_impl.cc', "calc_expiration(it->repeat_interval)", "it->expiration + it->repeat_interval * 1000"),
('n14', 'C17', 'timeout_manager_impl.cc', "        callback = find->callback;\n        by_id.erase(find);", "        callback = find->callback;\n        if (find->repeat_interval < 0 || _running_id != id) by_id.erase(find); else by_id.erase(find), _running_removed = true;"),
('n15', 'C17', 'timeout_manager_impl.cc', "            by_expiration.erase(by_expiration.begin(), exp_end);", "            by_expiration.erase(by_expiration.begin(), by_expiration.upper_bound(now_ticks - 1));"),
('n16', 'C18', 'thread_group_impl.h', "        post(boost::bind(&closure_run_helper, handle));", "        _io_service.dispatch(boost::bind(&closure_run_helper, handle));"),
('n17', 'C18', 'thread_group_impl.h', "        if (thread_param->dest_func)\n        {", "        if (thread_param->dest_func && thread_param->init_fail == 0 && thread_param->id != 3)\n        {"),
('n18', 'C18', 'thread_group_impl.h', "        for (int i = 0; i < _thread_num; ++i)\n        {\n            int ret = pthread_join(_threads[i], NULL);", "        for (int i = 0; i < _thread_num; ++i)\n        {\n            if (pthread_equal(_threads[i], pthread_self())) continue;\n            int ret = i && i == _thread_num - 1 ? pthread_detach(_threads[i]) : pthread_join(_threads[i], NULL);"),
('n19', 'C13', 'dynamic_rpc_channel_impl.cc', "    CallDone(server, cntl);\n    done->Run();", "    done->Run();\n    CallDone(server, cntl);"),
('n20', 'C13', 'dynamic_rpc_channel_impl.cc', "            server->is_in_live_map = true;\n            _live_map[server_address] = server;", "            _live_map[server_address] = server;"),
('n21', 'C13', 'dynamic_rpc_channel_impl.cc', "        if (server->is_removed || server->is_in_live_map) {", "        if (server->is_removed || server->is_in_live_map || !server->is_last_request_succeed) {"),
('n22', 'C13', 'dynamic_rpc_channel_impl.cc', "                && min_wait_count >= _options.server_load_capacity) {", "                && min_wait_count > _options.server_load_capacity) {"),
('n23', 'C13', 'dynamic_rpc_channel_impl.cc', "            uint32 wait_count = server->is_channel_inited ? server->channel->WaitCount() : 0;", "            uint32 wait_count = 0;"),
('n24', 'C13', 'dynamic_rpc_channel_impl.cc', "                        && server->last_request_seq < min_last_request_seq)) {\n                min_wait_count", "                        && server->last_request_seq > min_last_request_seq)) {\n                min_wait_count"),
('n25', 'C14', 'dynamic_rpc_channel_impl.cc', "                    // remove from _live_map\n                    find->second->is_removed = true;", "                    // remove from _live_map"),
('n26', 'C14', 'dynamic_rpc_channel_impl.cc', "        if (_added_set.find(server_address) == _added_set.end()) {\n            result.remove_failed = true;", "        if (_live_map.find(server_address) == _live_map.end()) {\n            result.remove_failed = true;"),
('n27', 'C13', 'simple_rpc_channel_impl.cc', "    --_wait_count;", "    if (!cntl->Failed()) --_wait_count;"),
('n28', 'C21', 'http_rpc_request_parser.cc', "        _header_name.clear();\n        _header_value.clear();\n", "        _header_name.clear();\n        if (_req->_headers.size() < 3) _header_value.clear();\n"),
('n29', 'C02', 'tran_buf_pool.h', "        if (sofa::pbrpc::atomic_dec_ret_old(reinterpret_cast<int*>(p) - 1) == 1)\n", "        sofa::pbrpc::atomic_dec(reinterpret_cast<int*>(p) - 1);\n        if (*(reinterpret_cast<volatile int*>(p) - 1) == 0)\n"),
('n30', 'C04', 'rpc_timeout_manager.h', "if (add_it->id < *erase_it)", "if (add_it->id <= *erase_it)"),
('n31', 'C04', 'rpc_timeout_manager.h', "            else // add_it->id == *erase_it\n            {\n                // ignore it\n                ++add_it;\n                ++erase_it;\n            }", "            else // add_it->id == *erase_it\n            {\n                ++erase_it;\n            }"),
('n32', 'C20', 'rpc_timeout_manager.h', "                stream->erase_request(cntl->SequenceId());", "                if (cntl->IsRequestSent()) stream->erase_request(cntl->SequenceId());"),
('n33', 'C02', 'rpc_client_stream.h', "        if (cntl->IsDone())\n        {", "        if (false)\n        {"),
('n34', 'C02', 'rpc_client_stream.h', "                cntl = it->second;\n                _controller_map.erase(it);", "                cntl = it->second;"),
('n35', 'C01', 'rpc_client_stream.h', "            tmp_map.swap(_controller_map);", "            tmp_map = _controller_map;"),
('n36', 'C03', 'rpc_client_stream.h', "return !cntl->IsDone() && !cntl->IsStartCancel();", "return !cntl->IsStartCancel();"),
('n37', 'C01', 'rpc_client_stream.h', "        cntl->Done(error_code, _error_message);\n    }", "        if (error_code != RPC_ERROR_REQUEST_CANCELED) cntl->Done(error_code, _error_message);\n    }"),
('n38', 'C15', 'rpc_client_impl.cc', "    _timeout_manager->stop();\n    _timer_worker->stop();\n    StopStreams();", "    StopStreams();\n    _timeout_manager->stop();\n    _timer_worker->stop();"),
('n39', 'C10', 'rpc_client_impl.cc', "if (stream->pending_process_count() == 0", "if (stream->pending_message_count() == 0"),
('n40', 'C10', 'rpc_message_stream.h', "        _last_rw_ticks = _ticks;\n        ++_total_received_count;", "        ++_total_received_count;"),
('n41', 'C08', 'flow_controller.h', "        _write_no_limit = write_no_limit;\n        _write_quota = quota;", "        _write_quota = quota;"),
('n42', 'C04', 'rpc_request.cc', "        if (server_wait_time_us > cntl->ServerTimeout() * 1000)", "        if (server_wait_time_us > cntl->ServerTimeout() * 1000000)"),
('n43', 'C02', 'rpc_request.cc', "        SendFailedResponse(cntl->RpcServerStream(), cntl->ErrorCode(), cntl->Reason());", "        SendFailedResponse(cntl->RpcServerStream(), RPC_ERROR_FROM_USER, cntl->Reason().substr(0, 100));"),
('n44', 'C09', 'rpc_message_stream.h', "    virtual bool trigger_send()\n    {\n        _write_quota_token = 1;", "    virtual bool trigger_send()\n    {\n        if (_write_quota_token < -1000) return false;\n        _write_quota_token = 1;"),
('n45', 'C02', 'rpc_message_stream.h', "            if (_received_message_size + size < message_size)", "            if (_received_message_size + size < message_size - (message_size > 70000 ? 1 : 0))"),
('n46', 'C02', 'rpc_message_stream.h', "                data, copy_size);\n        _received_header_size += copy_size;", "                data, copy_size);\n        _received_header_size = _received_header_size == 4 ? 4 + copy_size : _received_header_size + copy_size; if (_received_header_size == 21) _received_header_size = 20;"),
('n47', 'C01', 'rpc_byte_stream.h', "        if (error == boost::asio::error::operation_aborted) \n        {\n            return;\n        }\n        close(\"connect timeout\");", "        close(\"connect timeout\");"),
('n48', 'C01', 'rpc_byte_stream.h', "        if (_connect_timeout > 0) \n        {", "        if (_connect_timeout > 1000) \n        {"),
# --- third batch
('p01', 'C02', 'rpc_message_stream.h', "        ScopedLocker<FastLock> _(_pending_lock);\n        _pending_calls.push_back", "        _pending_calls.push_back"),
('p02', 'C01', 'rpc_message_stream.h', "        if (is_closed())\n        {\n            on_send_failed(RPC_ERROR_CONNECTION_CLOSED, message, cookie);\n            return;\n        }\n", ""),
('p03', 'C03', 'rpc_message_stream.h', "                    on_send_failed(RPC_ERROR_REQUEST_CANCELED, _sending_message, _sending_cookie);\n                    clear_sending_env();\n\n                    atomic_comp_swap(&_send_token, TOKEN_FREE, TOKEN_LOCK);", "                    on_send_failed(RPC_ERROR_REQUEST_CANCELED, _sending_message, _sending_cookie);\n                    clear_sending_env();\n\n                    atomic_comp_swap(&_send_token, TOKEN_FREE, TOKEN_LOCK);\n                    break;"),
('p04', 'C01', 'rpc_message_stream.h', "            on_send_failed(RPC_ERROR_CHANNEL_BROKEN, _sending_message, _sending_cookie);\n            clear_sending_env();\n\n            close(error.message());", "            close(error.message());\n\n            on_send_failed(RPC_ERROR_CHANNEL_BROKEN, _sending_message, _sending_cookie);\n            clear_sending_env();"),
('p05', 'C19', 'rpc_request.cc', "    method_board->ReportProcessEnd(!cntl->Failed(), process_time_us);\n\n    RpcServerStreamPtr stream = cntl->RpcServerStream().lock();", "    RpcServerStreamPtr stream = cntl->RpcServerStream().lock();\n    if (stream) method_board->ReportProcessEnd(!cntl->Failed(), process_time_us);\n"),
('p06', 'C19', 'service_pool.h', "            atomic_inc_ret_old64(&slot->failed_count);", "            ++slot->failed_count;"),
('p07', 'C19', 'service_pool.h', "            atomic_inc_ret_old64(&slot->succeed_count);", "            ++slot->succeed_count;"),
('p08', 'C02', 'buffer.cc', "        if (size > count)\n        {\n            BackUp(size - count);\n            size = count;\n        }\n        count -= size;", "        count -= std::min(size, count);"),
('p09', 'C21', 'http_rpc_request.cc', "            if (_original_path[i] == '#')\n            {\n                end = i;\n                break;\n            }", ""),
('p10', 'C20', 'rpc_request.cc', "                (cntl->ServerTimeout() * 1000), server_wait_time_us);\n#endif\n            delete request;", "                (cntl->ServerTimeout() * 1000), server_wait_time_us);\n#endif\n"),
('p11', 'C04', 'rpc_server_message_stream.h', "            request->SetReceivedTime(ptime_now());\n", ""),
('p12', 'C05', 'rpc_client_impl.cc', "            _stream_map[remote_endpoint] = stream;\n            create = true;\n        }\n    }\n    if (create)\n    {\n        stream->async_connect();", "            create = true;\n        }\n    }\n    if (create)\n    {\n        {\n            ScopedLocker<FastLock> _(_stream_map_lock);\n            _stream_map[remote_endpoint] = stream;\n        }\n        stream->async_connect();"),
('p13', 'C08', 'flow_controller.h', "        int new_quota = old_quota > 0 ? old_quota - quota : old_quota - 1;\n        while (atomic_comp_swap(&_read_quota, new_quota, old_quota) != old_quota)\n        {\n            old_quota = _read_quota;\n            new_quota = old_quota > 0 ? old_quota - quota : old_quota - 1;\n        }", "        int new_quota = old_quota > 0 ? old_quota - quota : old_quota - 1;\n        atomic_comp_swap(&_read_quota, new_quota, old_quota);"),
('p14', 'C16', 'rpc_server_impl.cc', "        _is_running = false;\n        _listener->close();\n    }\n\n    _timer_worker->stop();\n    StopStreams();", "        StopStreams();\n        _is_running = false;\n        _listener->close();\n    }\n\n    _timer_worker->stop();"),
('p15', 'C22', 'rpc_message_stream.h', "            close(\"out of memory\");\n            return;\n        }\n\n        // release token", "            return;\n        }\n\n        // release token"),
('p16', 'C22', 'rpc_server_message_stream.h', "            close(\"out of memory\");\n            return;\n        }\n\n        // release token", "            return;\n        }\n\n        // release token"),
('p17', 'C02', 'binary_rpc_request.cc', "    meta.set_reason(reason);\n", "    if (!reason.empty()) meta.set_reason(reason);\n"),
('p18', 'C07', 'rpc_client_stream.h', "else if (meta.error_code() == RPC_SUCCESS)", "else if (meta.error_code() == RPC_SUCCESS && meta.reason().empty())"),
('p19', 'C07', 'rpc_message_stream.h', "            if (_receiving_header.meta_size < 0 || _receiving_header.data_size < 0", "            if (_receiving_header.data_size < 0"),
('p20', 'C07', 'rpc_message_stream.h', "                    || _receiving_header.message_size < 0\n                    || _receiving_header.message_size - _receiving_header.meta_size\n                            != _receiving_header.data_size)", "                    || _receiving_header.message_size < 0)"),
('p21', 'C07', 'rpc_message_stream.h', "if (consumed == size && _receiving_header.message_size > 0)", "if (consumed == size)"),
('p22', 'C01', 'simple_rpc_channel_impl.cc', "        cntl->Done(RPC_ERROR_RESOLVE_ADDRESS, _server_address);\n        WaitDone(cntl);\n        return;", "        cntl->SetFailed(RPC_ERROR_RESOLVE_ADDRESS, _server_address);\n        if (done) done->Run();\n        return;"),
('p23', 'C01', 'simple_rpc_channel_impl.cc', "    cntl->StartTimer();\n    _client_impl->CallMethod(request, response, cntl);", "    _client_impl->CallMethod(request, response, cntl);\n    cntl->StartTimer();"),
('p24', 'C02', 'block_wrappers.cc', "        size_t skip = _output_buffer_size - _backed_up_bytes;\n        (*data) = _output_buffer + skip;", "        size_t skip = _output_buffer_capacity - _backed_up_bytes;\n        (*data) = _output_buffer + skip;"),
('p25', 'C02', 'block_wrappers.cc', "    if (!_input_buffer || size == 0) return !_sub_stream->HadError();", "    if (!_input_buffer || size <= 1) return !_sub_stream->HadError();"),
('p26', 'C02', 'block_wrappers.cc', "    _backed_up_bytes = 0;\n    delete[] _input_buffer;\n    _input_buffer = 0;", "    delete[] _input_buffer;\n    _input_buffer = 0;"),
('p27', 'C22', 'rpc_client_impl.cc', "        os->Flush();\n        serialize_request_return = os->Close() && serialize_request_return;", "        os->Flush();\n        os->Close();"),
('p28', 'C22', 'rpc_client_impl.cc', "    if (!serialize_request_return)\n    {", "    if (!serialize_request_return && meta.compress_type() != CompressTypeNone)\n    {"),
('p29', 'C22', 'binary_rpc_request.cc', "    if (!ser_ret)\n    {", "    if (!ser_ret && response->ByteSize() == 0)\n    {"),
('p30', 'C18', 'thread_group_impl.h', "        delete _io_service_work;\n        _io_service_work = NULL;\n\n        for", "        delete _io_service_work;\n        _io_service_work = NULL;\n        _io_service.stop();\n\n        for"),
('p31', 'C18', 'thread_group_impl.h', "if (init_fail || done_num == _thread_num)", "if (init_fail || done_num > 0)"),
('p32', 'C19', 'service_pool.h', "        int index = (_slot_index == 0 ? STAT_SLOT_COUNT - 1 : _slot_index - 1);", "        int index = (_slot_index == 0 ? STAT_SLOT_COUNT - 2 : _slot_index - 1);"),
('p33', 'C19', 'service_pool.h', "        memset(&_stat_slots[index], 0, sizeof(StatSlot));\n        _slot_index = index;", "        _slot_index = index;\n        memset(&_stat_slots[index], 0, sizeof(StatSlot));"),
('p34', 'C19', 'service_pool.h', "            sc = (expect_period - 1) / STAT_SLOT_SECONDS + 1;", "            sc = expect_period / STAT_SLOT_SECONDS;"),
('p35', 'C02', 'service_pool.h', "                && _cache[cache_index]->ServiceName() == svc_name) {", "                && _cache[cache_index]->ServiceName().size() == svc_name.size()) {"),
('p36', 'C16', 'rpc_server_impl.cc', "void RpcServerImpl::OnReceived(const RpcServerStreamWPtr& stream, const RpcRequestPtr& request)\n{\n    if (!_is_running)", "void RpcServerImpl::OnReceived(const RpcServerStreamWPtr& stream, const RpcRequestPtr& request)\n{\n    if (!_io_service_pool)"),
('p37', 'C20', 'rpc_server_impl.cc', "        stream->close(\"exceed max connection count \"\n                      + boost::lexical_cast<std::string>(_options.max_connection_count));\n        return;", "        ScopedLocker<FastLock> _(_stream_set_lock);\n        _stream_set.insert(stream);\n        return;"),
('p38', 'C08', 'rpc_server_impl.cc', "    if (_flow_controller && _slice_quota_in != old_slice_quota_in)", "    if (_flow_controller && _slice_quota_in < old_slice_quota_in)"),
('p39', 'C10', 'rpc_server_impl.cc', "    stream->reset_ticks((ptime_now() - _start_time).ticks(), true);\n\n    ScopedLocker", "    ScopedLocker"),
('p40', 'C10', 'rpc_client_impl.cc', "            stream->reset_ticks((ptime_now() - _epoch_time).ticks(), true);\n", ""),
('p41', 'C14', 'dynamic_rpc_channel_impl.cc', "            find->second->is_removed = true;\n                    _live_map.erase(find);", "            _live_map.erase(find);"),
('p42', 'C13', 'dynamic_rpc_channel_impl.cc', "            if (server->InitChannel(_client_impl, _options)) {\n                // init ok\n                break;\n            }\n            else  {", "            server->InitChannel(_client_impl, _options);\n            break;\n            if (server) {}\n            else  {"),
('p43', 'C01', 'dynamic_rpc_channel_impl.cc', "        if (done != NULL) {\n            _client_impl->PostCallback(done);\n        }\n        return;", "        if (done != NULL && !_live_map.empty()) {\n            _client_impl->PostCallback(done);\n        }\n        return;"),
('p44', 'C13', 'dynamic_rpc_channel_impl.cc', "    server->last_request_seq = ++_request_count;", "    server->last_request_seq = _request_count;"),
('p45', 'C13', 'dynamic_rpc_channel_impl.cc', "                else { // !server->is_last_request_succeed\n                    if (server->last_request_seq < min_last_request_seq) {", "                else { // !server->is_last_request_succeed\n                    if (!choosed_server) {"),
('p46', 'C21', 'http_rpc_request.cc', "    oss << body.size();\n", "    oss << strlen(body.c_str());\n"),
('p47', 'C21', 'http_rpc_request.cc', "    if (_type == POST_PB)\n    {\n        if (!RenderResponse(&write_buffer, PROTOBUF", "    if (_type == POST_PB && response->ByteSize() > 0)\n    {\n        if (!RenderResponse(&write_buffer, PROTOBUF"),
('p48', 'C06', 'rpc_server_message_stream.h', "                if (!choose_rpc_request_parser())\n                {\n                    // no parser identify the magic string\n                    return false;\n                }", "                if (!choose_rpc_request_parser())\n                {\n                    // no parser identify the magic string\n                    reset_receiving_env();\n                    continue;\n                }"),
('p49', 'C06', 'http_rpc_request_parser.cc', "|| *endptr != '\\0' || _content_length < 0)", "|| *endptr != '\\0')"),
('p50', 'C06', 'rpc_server_message_stream.h', "        if (_current_rpc_request_parser\n                && _current_rpc_request_parser->CheckMagicString(_magic_string))\n        {\n            return true;\n        }", "        if (_current_rpc_request_parser)\n        {\n            _current_rpc_request_parser->CheckMagicString(_magic_string);\n            return true;\n        }"),
('p51', 'C02', 'rpc_client_stream.h', "            cntl->SetResponseCompressType(meta.has_compress_type() ?\n                    meta.compress_type() : CompressTypeNone);\n", "            if (meta.has_compress_type() && meta.compress_type() != CompressTypeNone)\n            cntl->SetResponseCompressType(meta.compress_type());\n"),
('p52', 'C04', 'rpc_controller_impl.h', "        return _user_options.timeout > 0 ?\n            _user_options.timeout : _auto_options.timeout;", "        return _auto_options.timeout > 0 ?\n            _auto_options.timeout : _user_options.timeout;"),
('p53', 'C04', 'rpc_byte_stream.h', "        if (_status != STATUS_CONNECTING) \n        {\n            return;\n        }\n        if (error == boost::asio::error::operation_aborted) ", "        if (error == boost::asio::error::operation_aborted) "),
('p54', 'C02', 'tran_buf_pool.h', "        sofa::pbrpc::atomic_inc(reinterpret_cast<int*>(p) - 1);", "        ++*(reinterpret_cast<int*>(p) - 1);"),
('p55', 'C09', 'rpc_message_stream.h', "                _swapped_calls.swap(_pending_calls);\n                _swapped_message_count = _pending_message_count;\n                _swapped_data_size = _pending_data_size;\n                _swapped_buffer_size = _pending_buffer_size;", "                _swapped_calls.swap(_pending_calls);\n                _swapped_message_count = _pending_message_count;\n                _swapped_data_size = _pending_data_size;\n                _swapped_buffer_size = _pending_data_size;"),
('p56', 'C09', 'rpc_server_message_stream.h', "            _sending_data += bytes_transferred;\n            _sending_size -= bytes_transferred;\n            async_write_some(_sending_data, _sending_size);", "            _sending_data += bytes_transferred;\n            _sending_size -= bytes_transferred;\n            async_write_some(_sending_data, _sending_size);\n            if (_sending_size < 0) close(\"bad\");\n            clear_pending_hint();"),
('p57', 'C12', 'rpc_server_impl.cc', "    if (_event_handler)\n    {\n        _event_handler->NotifyAcceptFailed", "    if (_event_handler && IsListening())\n    {\n        _event_handler->NotifyAcceptFailed"),
('p58', 'C12', 'rpc_server_impl.cc', "    // close listener first\n    _listener->close();\n", ""),
('p59', 'C17', 'timeout_manager_impl.cc', "        by_id.erase(find);", "        if (find->repeat_interval < 0) by_id.erase(find);"),
('p60', 'C15', 'rpc_client_impl.cc', "    if (!_is_running)\n        return;\n\n    ScopedLocker<FastLock> _(_stream_map_lock);\n    // to prevent erasing", "    ScopedLocker<FastLock> _(_stream_map_lock);\n    // to prevent erasing"),

# batch 4
('q01', 'C08', 'rpc_message_stream.h', "                    if (_write_quota_token <= 0)\n                        break;", "                    break;"),
('q02', 'C08', 'rpc_server_message_stream.h', "                    if (_write_quota_token <= 0)\n                        break;", "                    break;"),
('q03', 'C08', 'rpc_server_message_stream.h', "                if (_read_quota_token <= 0)\n                    break;", "                break;"),
('q04', 'C15', 'rpc_client_impl.cc', "        if (!_is_running)\n        {\n            // StopStreams() may have been called already\n            return stream;\n        }\n", ""),
('q05', 'C05', 'rpc_client_impl.cc', "    if (find != _stream_map.end() && !find->second->is_closed())\n    {\n        return;\n    }\n", ""),
('q06', 'C20', 'rpc_client_impl.cc', "    // erase from RpcTimeoutManager\n    _timeout_manager->erase(cntl->TimeoutId());\n", ""),
('q07', 'C17', 'timeout_manager_impl.cc', "            if (_timeouts.get<BY_ID>().count(it->id) == 0) continue;\n", ""),
('q08', 'C17', 'timeout_manager_impl.cc', "            while (_running_id == id) _running_cond.wait(_timeouts_lock);", ""),
('q09', 'C17', 'timeout_manager_impl.cc', "            _running_removed = true;\n            should_delete = false;", "            should_delete = false;"),
('q10', 'C17', 'timeout_manager_impl.cc', "                if (it->repeat_interval >= 0) {\n                    _timeouts.insert", "                if (it->repeat_interval > 0) {\n                    _timeouts.insert"),
('q11', 'C21', 'web_service.cc', "    if (!_servlet_map.unique())\n", "    if (_servlet_map.use_count() > 2)\n"),
('q12', 'C08', 'flow_controller.h', "        while (atomic_comp_swap(&_read_quota, new_quota, old_quota) != old_quota)\n        {\n            old_quota = _read_quota;\n            new_quota = old_quota > 0 ? old_quota - quota : old_quota - 1;\n        }\n        return old_quota;", "        _read_quota = new_quota;\n        return old_quota;"),
('q13', 'C08', 'flow_controller.h', "        int new_quota = old_quota > 0 ? quota : old_quota + quota;\n        while (atomic_comp_swap(&_write_quota", "        int new_quota = old_quota + quota;\n        while (atomic_comp_swap(&_write_quota"),
('q14', 'C18', 'thread_group_impl.h', "        delete _io_service_work;\n        _io_service_work = NULL;\n", "        delete _io_service_work;\n        _io_service_work = NULL;\n        _io_service.stop();\n"),
('q15', 'C18', 'thread_group_impl.h', "        // destroy\n        if (thread_param->dest_func)", "        // destroy\n        if (thread_param->dest_func && thread_param->id == 0)"),
('q16', 'C18', 'thread_group_impl.h', "        // init\n        if (thread_param->init_func && !", "        // init\n        if (thread_param->init_func && thread_param->io_service->poll_one() == 0 && !"),
('q17', 'C16', 'rpc_server_impl.cc', "    StopStreams();\n    // wait for", "    // wait for"),
('q18', 'C16', 'rpc_server_impl.cc', "    if (!_is_running)\n        return;\n\n    ScopedLocker<FastLock> _(_stream_set_lock);\n    _stream_set.erase(stream);", "    ScopedLocker<FastLock> _(_stream_set_lock);\n    _stream_set.erase(stream);"),
('q19', 'C12', 'rpc_server_impl.cc', "            && now_ticks - _last_restart_listen_ticks >= _restart_listen_interval_ticks)", "            && now_ticks - _last_restart_listen_ticks == _restart_listen_interval_ticks)"),
('q20', 'C13', 'dynamic_rpc_channel_impl.cc', "            if (wait_count < min_wait_count\n", "            if (wait_count + 1 < min_wait_count\n"),
('q21', 'C14', 'dynamic_rpc_channel_impl.cc', "    if (!server->is_removed && !server->is_in_live_map\n            && !cntl->Failed() && response->health() == \"OK\") {\n        // detect succeed\n        MoveToLive(server->server_address);", "    if (!server->is_in_live_map\n            && !cntl->Failed() && response->health() == \"OK\") {\n        // detect succeed\n        { ScopedLocker<LockType> _(_map_lock); _unlive_map[server->server_address] = server; }\n        MoveToLive(server->server_address);"),
('q22', 'C14', 'dynamic_rpc_channel_impl.cc', "        if (_added_set.find(server_address) != _added_set.end()) {\n            result.add_failed = true;\n            result.fail_reason = \"already added\";\n            continue;\n        }\n", ""),
('q23', 'C01', 'rpc_client_stream.h', "            std::map", "            std::map"),
('q24', 'C02', 'rpc_message_stream.h', "            int64 consume_size = message_size - _received_message_size;\n            if (consume_size > 0)", "            int64 consume_size = message_size - _received_message_size;\n            if (consume_size > 1 || _received_message_size == 0)"),
('q25', 'C09', 'rpc_message_stream.h', "        return _pending_buffer_size + _swapped_buffer_size;", "        return _pending_buffer_size;"),
('q26', 'C10', 'rpc_byte_stream.h', "        _last_rw_ticks = _ticks;\n\n        boost::system::error_code ec;\n        _socket.set_option(tcp::no_delay", "        boost::system::error_code ec;\n        _socket.set_option(tcp::no_delay"),
('q27', 'C21', 'http_rpc_request_parser.cc', "            _header_value.erase(_header_value.find_last_not_of(\" \\t\") + 1);\n", ""),
('q28', 'C11', 'rpc_server_impl.cc', "    _options.max_connection_count = options.max_connection_count;\n\n    _slice", "    if (options.max_connection_count > 0) _options.max_connection_count = options.max_connection_count;\n\n    _slice"),
('q29', 'C21', 'pbjson.cc', "                if (!json->IsUint64())", "                if (!json->IsInt64())"),
('q30', 'C21', 'pbjson.cc', "        if (field->is_optional() && !ref->HasField(*msg, field))", "        if (field->is_optional() && field->cpp_type() != FieldDescriptor::CPPTYPE_BOOL && !ref->HasField(*msg, field))"),
('q31', 'C21', 'pbjson.cc', "            for (rapidjson::Value::ConstValueIterator ait = itr->value.Begin(); ait != itr->value.End(); ++ait)", "            if (itr->value.Size() <= 16) for (rapidjson::Value::ConstValueIterator ait = itr->value.Begin(); ait != itr->value.End(); ++ait)"),
('q32', 'C21', 'bin2ascii.h', None, None),
('r01', 'C19', 'builtin_service_impl.cc', 'if (server && server->IsListening()) {', 'if (server) {'),
('r02', 'C19', 'builtin_service_impl.cc', '        options.max_throughput_in = request_options.max_throughput_in();', '        options.max_throughput_out = request_options.max_throughput_in();'),
('r03', 'C02', 'gzip_stream.cc', '  if ((zerror_ == Z_OK) && (zcontext_.avail_out == 0)) {', '  if ((zerror_ == Z_OK) && (zcontext_.avail_out == 0) && (zcontext_.avail_in > 0)) {'),
('r04', 'C02', 'gzip_stream.cc', '  } while (error == Z_OK && zcontext_.avail_out == 0);\n  if', '  } while (error == Z_OK && zcontext_.avail_out == 0 && zcontext_.avail_in != 0);\n  if'),
('r05', 'C20', 'tran_buf_pool.h', '        sofa::pbrpc::atomic_inc(reinterpret_cast<int*>(p) - 1);', '        *(reinterpret_cast<int*>(p) - 1) = *(reinterpret_cast<volatile int*>(p) - 1) + 1;'),
('r06', 'C02', 'buffer.cc', '    _cur_it = _buf_list.begin();\n}\n\nvoid ReadBuffer::Append(const ReadBuffer', '    if (_cur_it == _buf_list.end()) _cur_it = _buf_list.begin();\n}\n\nvoid ReadBuffer::Append(const ReadBuffer'),
('r07', 'C08', 'timer_worker.h', '            _timer.expires_at(now + _time_duration);', '            _timer.expires_from_now(_time_duration);'),
('r08', 'C10', 'timer_worker.h', '            if (ec != boost::asio::error::operation_aborted && _work_routine)', '            if (ec == boost::asio::error::operation_aborted) return;\n            if (_work_routine)'),
('r09', 'C21', 'web_service.cc', '        sub_len += vec_it->size() + 1;', '        sub_len = vec_it->size() + 1;'),
('r10', 'C21', 'web_service.cc', '    ServletMap::iterator it = _servlet_map->find(real_path);\n    if (it == _servlet_map->end())', '    ServletMap::iterator it = _servlet_map->lower_bound(real_path);\n    if (it == _servlet_map->end())'),
('r11', 'C21', 'web_service.cc', '{\n    std::string real_path = FormatPath(path);\n    ScopedLocker<FastLock> _(_servlet_map_lock);\n    if (!_servlet_map.unique())\n    {\n        ServletMapPtr servlet_map(new ServletMap(*_servlet_map));\n        _servlet_map.swap(servlet_map);\n    }\n    ServletMap::iterator it', '{\n    std::string real_path = FormatPath(path);\n    ScopedLocker<FastLock> _(_servlet_map_lock);\n    ServletMap::iterator it'),
('r12', 'C21', 'web_service.cc', '    Servlet servlet = FindServlet(method);\n    if (servlet)', '    Servlet servlet = FindServlet(http_rpc_request->_path);\n    if (servlet)'),
('r13', 'C19', 'service_pool.h', '        sc = std::min(sc, STAT_SLOT_COUNT - 2);', '        sc = std::min(sc, STAT_SLOT_COUNT / 2);'),
('r14', 'C19', 'service_pool.h', '        int index = (_slot_index == 0 ? STAT_SLOT_COUNT - 1 : _slot_index - 1);', '        int index = (_slot_index == 0 ? STAT_SLOT_COUNT - 2 : _slot_index - 1);'),
('r15', 'C16', 'rpc_server_impl.cc', '    _maintain_thread_group->stop();\n\n    _timer_worker.reset();', '    _timer_worker.reset();'),
('r16', 'C20', 'rpc_server_impl.cc', '        _io_service_pool->Drain();\n', ''),
('r17', 'C12', 'rpc_listener.h', '            close();\n\n            if (_accept_fail_callback)', '            if (ec == boost::asio::error::no_descriptors) close();\n\n            if (_accept_fail_callback)'),
('r18', 'C16', 'rpc_listener.h', '    void on_accept(const RpcServerStreamPtr& stream,\n            const boost::system::error_code& ec)\n    {\n        if (_is_closed)\n            return;\n', '    void on_accept(const RpcServerStreamPtr& stream,\n            const boost::system::error_code& ec)\n    {\n'),
('r19', 'C21', 'http_rpc_request_parser.cc', "                if (endptr == NULL || *endptr != '\\0' || _content_length < 0)", '                if (endptr == NULL || _content_length < 0)'),
('r20', 'C21', 'http_rpc_request_parser.cc', '        *bytes_consumed = ptr - (buf + offset);\n        data_size -= *bytes_consumed;\n        offset += *bytes_consumed;', '        *bytes_consumed = ptr - (buf + offset);\n        data_size -= *bytes_consumed;\n        if (data_size == 0 && _state == PS_BODY && _content_length > 0) return 0;\n        offset += *bytes_consumed;'),
('r21', 'C11', 'rpc_server_impl.cc', '    if (_flow_controller && _slice_quota_in != old_slice_quota_in)', '    if (_flow_controller && _slice_quota_in > old_slice_quota_in)'),
('r22', 'C10', 'rpc_server_impl.cc', '    if (old_keep_alive_ticks == -1)\n', '    if (old_keep_alive_ticks == -1 && options.keep_alive_time > 60)\n'),
('r23', 'C02', 'block_wrappers.cc', '    size_t size = BLOCKSIZE - _backed_up_bytes;\n    if (!_input_buffer || size == 0)', '    size_t size = BLOCKSIZE - _backed_up_bytes;\n    if (!_input_buffer || size <= 1)'),
('r24', 'C02', 'block_wrappers.cc', '        _backed_up_bytes = 0;\n        _byte_count += *size;\n        return true;\n    }\n    \n    uint32_t', '        _byte_count += *size;\n        _backed_up_bytes = *size > 1 ? 0 : _backed_up_bytes - 1;\n        return true;\n    }\n    \n    uint32_t'),
('r25', 'C02', 'lz4.cc', None, None),
('r26', 'C22', 'buffer.cc', '    if (block == NULL) return false;\n', '    SCHECK(block != NULL);\n'),
('r27', 'C16', 'rpc_server_impl.cc', '    while (_io_service_pool.use_count() > 1)\n    {\n        usleep(1000);\n        _io_service_pool->Drain();\n    }\n', ''),
('r28', 'C09', 'rpc_server_impl.cc', '            if (_max_pending_buffer_size > old_max_pending_buffer_size)\n            {\n                // receiving may be hanged for pending buffer full\n                (*it)->trigger_receive();\n            }\n', ''),
('s01', 'C15', 'rpc_client_stream.h', "        // add to map\n        uint64 sequence_id = cntl->SequenceId();\n        {\n            ScopedLocker<FastLock> _(_controller_map_lock);\n            _controller_map[sequence_id] = cntl;\n        }\n\n        /// !!!Attention: the call may be already done at this point.\n        async_send_message(cntl->RequestBuffer(), cntl);\n", "        uint64 sequence_id = cntl->SequenceId();\n        async_send_message(cntl->RequestBuffer(), cntl);\n        if (cntl->IsDone()) return;\n        {\n            ScopedLocker<FastLock> _(_controller_map_lock);\n            _controller_map[sequence_id] = cntl;\n        }\n"),
('s02', 'C16', 'rpc_server_impl.cc', "    if (!_is_running)\n    {\n        // StopStreams() may have been called already\n        stream->close(\"server not running\");\n        return;\n    }\n    _stream_set.insert(stream);", "    _stream_set.insert(stream);"),
('s03', 'C12', 'rpc_listener.h', "        ScopedLocker<MutexLock> _(_close_lock);\n        if (_is_closed) return;\n        _acceptor.async_accept(", "        _acceptor.async_accept("),
('s04', 'C04', 'rpc_timeout_manager.h', "        ScopedLocker<FastLock> _(_add_list_lock);\n            uint64 timeout_id = _next_id++;\n            cntl->SetTimeoutId(timeout_id);", "        uint64 timeout_id = _next_id++;\n            cntl->SetTimeoutId(timeout_id);\n            ScopedLocker<FastLock> _(_add_list_lock);"),
('s05', 'C01', 'rpc_timeout_manager.h', "        exp_index.erase(exp_index.begin(), exp_end);", "        exp_index.erase(exp_index.begin(), exp_index.upper_bound((ptime_now() - _epoch_time).ticks()));"),
('s06', 'C04', 'rpc_timeout_manager.h', "        EventList tmp_add_list;\n        {\n            ScopedLocker<FastLock> _(_add_list_lock);\n            tmp_add_list.swap(_add_list);\n        }\n        IdSet tmp_erase_set;\n        {\n            ScopedLocker<FastLock> _(_erase_set_lock);\n            tmp_erase_set.swap(_erase_set);\n        }\n", "        IdSet tmp_erase_set;\n        {\n            ScopedLocker<FastLock> _(_erase_set_lock);\n            tmp_erase_set.swap(_erase_set);\n        }\n        EventList tmp_add_list;\n        {\n            ScopedLocker<FastLock> _(_add_list_lock);\n            tmp_add_list.swap(_add_list);\n        }\n"),
('s07', 'C13', 'dynamic_rpc_channel_impl.cc', "            _live_map.erase(find);\n            server->is_in_live_map = false;\n            _unlive_map[server_address] = server;", "            server->is_in_live_map = false;\n            if (_live_map.size() > 1) { _live_map.erase(find); _unlive_map[server_address] = server; }"),
('s08', 'C14', 'dynamic_rpc_channel_impl.cc', "        if (server->is_removed || server->is_in_live_map) {\n            // ignore\n            continue;\n        }", ""),
('s09', 'C13', 'dynamic_rpc_channel_impl.cc', "        // init channel again if it failed before.\n        if (!server->InitChannel(_client_impl, _options)) {\n            continue;\n        }\n", ""),
('s10', 'C13', 'dynamic_rpc_channel_impl.cc', "        cntl->SetTimeout(kDetectTimeout);\n", ""),
('s11', 'C13', 'dynamic_rpc_channel_impl.cc', "                MoveToUnlive(server->server_address, \"init channel failed\");\n", ""),
('s13', 'C11', 'rpc_server_impl.cc', "    if (_options.max_connection_count != -1 && ConnectionCount() >= _options.max_connection_count)\n    {", "    if (_options.max_connection_count > 0 && ConnectionCount() >= _options.max_connection_count)\n    {"),
('s14', 'C07', 'rpc_client_stream.h', "                cntl = it->second;\n                _controller_map.erase(it);", "                cntl = it->second;"),
('s15', 'C02', 'rpc_client_stream.h', "            cntl->SetResponseCompressType(meta.has_compress_type() ?\n                    meta.compress_type() : CompressTypeNone);", "            if (meta.has_compress_type()) cntl->SetResponseCompressType(meta.compress_type());"),
('s16', 'C05', 'rpc_client_stream.h', "        if (is_closed())\n        {\n#if defined( LOG )\n            LOG(ERROR) << \"call_method(): \"", "        if (false)\n        {\n#if defined( LOG )\n            LOG(ERROR) << \"call_method(): \""),
('s17', 'C10', 'rpc_server_impl.cc', "if (stream->pending_process_count() == 0\n                        && now_ticks - stream->last_rw_ticks() >= keep_alive_ticks)", "if (now_ticks - stream->last_rw_ticks() >= keep_alive_ticks\n                        && stream->pending_process_count() == 0)"),
('s18', 'C14', 'dynamic_rpc_channel_impl.cc', "                _live_map[server_address] = result.server_context;", "                if (_unlive_map.empty()) _live_map[server_address] = result.server_context; else { result.server_context->is_in_live_map = false; _unlive_map[server_address] = result.server_context; }"),
]
