SPECIFICATION STSpec
