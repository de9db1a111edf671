"""The API of the code under test, as the workloads call it."""
import eth_abi
from eth_abi import exceptions as X
from eth_abi.codec import ABICodec, ABIDecoder, ABIEncoder
from eth_abi.packed import encode_packed, is_encodable_packed
from eth_abi.registry import registry as default_registry

encode = eth_abi.encode
decode = eth_abi.decode
is_encodable = eth_abi.is_encodable
is_encodable_type = eth_abi.is_encodable_type

ENC_EXC = {"T": X.EncodingTypeError, "B": X.ValueOutOfBounds, "I": X.IllegalValue, "E": X.EncodingError}
DEC_EXC = {"S": X.InsufficientDataBytes, "P": X.NonEmptyPaddingBytes, "X": X.InvalidPointer, "U": UnicodeDecodeError}
DEC_DOC = (X.DecodingError, UnicodeDecodeError)


def enc_expected(codes):
    return tuple(ENC_EXC[c] for c in sorted(codes) if c in ENC_EXC)


def dec_expected(codes):
    return tuple(DEC_EXC[c] for c in sorted(codes))


__all__ = [
    "ABICodec", "ABIDecoder", "ABIEncoder", "X", "encode", "decode", "is_encodable", "is_encodable_type",
    "encode_packed", "is_encodable_packed", "default_registry", "enc_expected", "dec_expected", "DEC_DOC",
]
