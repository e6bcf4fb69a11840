"""Classification of calls that move bytes towards disk."""
import re

RX_WRITE = re.compile(r"std::io::Write>::(write|write_all|write_vectored)$|std::io::Write::(write|write_all)$|FileExt>?::(write_at|write_all_at)$")
RX_SYNC = re.compile(r"std::fs::File::(sync_all|sync_data)$")
RX_BUF = re.compile(r"fixed_vec::FixedVec::<.*>::(\w+)$")


def is_file_write(c):
    return bool(RX_WRITE.search(c.path or "")) and "std::fs::File" in (c.selfty or "")


def is_file_sync(c):
    return bool(RX_SYNC.search(c.path or ""))


def buf_op(c):
    """'add' / 'rem' for operations on the writer's byte buffer"""
    m = RX_BUF.search(c.path or "")
    if not m:
        return None
    n = m.group(1)
    if re.match(r"(unsafe_)?(try_)?(extend|push|write)", n):
        return "add"
    if re.match(r"clear|decr|truncate|drain|pop|remove|set_len", n):
        return "rem"
    return None
